-------------------------------- MODULE Hex --------------------------------
(***************************************************************************)
(* Intel HEX as a loader reads it, independently of how C8s writes it.  A  *)
(* record is the sequence of its bytes: length, address (2), type, data,   *)
(* checksum.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_, _)
Total(bytes, n) == IF n > Len(bytes) THEN 0 ELSE bytes[n] + Total(bytes, n + 1)

RecLen(r)  == r[1]
RecAddr(r) == 256 * r[2] + r[3]
RecType(r) == r[4]
RecData(r) == SubSeq(r, 5, Len(r) - 1)

WellFormedRecord(r) ==
  /\ Len(r) >= 5 /\ \A n \in 1..Len(r) : r[n] \in 0..255
  /\ Len(r) = RecLen(r) + 5
  /\ Total(r, 1) % 256 = 0
  /\ RecType(r) \in {0, 1}
  /\ RecType(r) = 0 => RecLen(r) \in 1..16 /\ RecAddr(r) + RecLen(r) - 1 <= 4095
  /\ RecType(r) = 1 => RecLen(r) = 0

(* Data records, then exactly one end-of-file record, and nothing more. *)
WellFormed(rs) ==
  /\ Len(rs) >= 1
  /\ \A n \in 1..Len(rs) : WellFormedRecord(rs[n]) /\ (RecType(rs[n]) = 1 <=> n = Len(rs))

(* The memory a loader is left with: a set of <<address, byte>> pairs. *)
Cells(rs) ==
  UNION {{<<RecAddr(rs[n]) + k - 1, RecData(rs[n])[k]>> : k \in 1..RecLen(rs[n])}
         : n \in {m \in 1..Len(rs) : RecType(rs[m]) = 0}}

(* No address is written twice. *)
Unambiguous(rs) ==
  LET RECURSIVE Count(_)
      Count(n) == IF n > Len(rs) THEN 0 ELSE RecLen(rs[n]) + Count(n + 1)
  IN Cardinality({c[1] : c \in Cells(rs)}) = Count(1)
=============================================================================
