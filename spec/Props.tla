------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* What the assembler promises, stated over C8s's states without reference *)
(* to how its actions compute.  TLC evaluates these in every state of the  *)
(* exhaustive models (Gen) and of every validated run (Trace).             *)
(***************************************************************************)
EXTENDS C8s, Hex

IsOrg(n) == nodes[n].k = "dir" /\ nodes[n].low = "org" /\ DirError(nodes[n]) = ""

SizeOf(n) == CASE nodes[n].k = "ins" -> 2
               [] nodes[n].k = "dir" /\ nodes[n].low = "db" -> DbSize(nodes[n])
               [] OTHER -> 0

(* The address of node n: the nearest .org before it, plus the sizes of    *)
(* everything in between.                                                  *)
OrgsBefore(n) == {m \in 1..(n - 1) : IsOrg(m)}
LastOrg(n)    == IF OrgsBefore(n) = {} THEN 0
                 ELSE CHOOSE m \in OrgsBefore(n) : \A q \in OrgsBefore(n) : q <= m
Origin(n)     == IF LastOrg(n) = 0 THEN 0 ELSE nodes[LastOrg(n)].args[1].v

RECURSIVE SizesBetween(_, _)
SizesBetween(a, b) == IF a >= b THEN 0 ELSE SizeOf(a) + SizesBetween(a + 1, b)

AddressOf(n) == Origin(n) + SizesBetween(LastOrg(n) + 1, n)

(* The bytes node n stands for, given the label values. *)
BytesOf(n) == CASE nodes[n].k = "ins" -> BigEndian(Encode(nodes[n]).word)
                [] nodes[n].k = "dir" /\ nodes[n].low = "db" -> DbBytes(nodes[n])
                [] OTHER -> <<>>

Succeeded == Done /\ exit = 0
Failed    == Done /\ exit # 0

----------------------------------------------------------------------------
(* C03 C04: each label has exactly the value its place in the source gives *)
(* it, wherever it is referred to.                                         *)
LabelNodes == {n \in 1..Len(nodes) : nodes[n].k = "label"}
LabelValues ==
  (ph = "pass2" /\ i = 1) \/ Succeeded =>
    /\ DOMAIN labels = {nodes[n].txt : n \in LabelNodes}
    /\ \A n \in LabelNodes :
         labels[nodes[n].txt] = IF IsEqu(n + 1) THEN nodes[n + 1].args[1].v ELSE AddressOf(n)
    /\ \A m, n \in LabelNodes : m # n => nodes[m].txt # nodes[n].txt
    /\ \A n \in 1..Len(nodes) : IsEqu(n) => n > 1 /\ nodes[n - 1].k = "label"

(* Every label an accepted program uses is defined. *)
Resolved ==
  Succeeded => \A n \in 1..Len(nodes) : nodes[n].k = "ins" =>
    \A a \in 1..Len(nodes[n].args) : nodes[n].args[a].k = "id" => nodes[n].args[a].txt \in DOMAIN labels

(* C06: the two passes agree on every address. *)
Placement ==
  /\ ph = "pass1" => addr = AddressOf(i)
  /\ ph = "pass2" => rng.start + Len(rng.data) = AddressOf(i)

(* C07: the address counter stays within twelve bits, and no byte is       *)
(* placed above it.                                                        *)
Bounds ==
  /\ addr \in 0..MaxAddr
  /\ rng.start + Len(rng.data) <= MaxAddr
  /\ \A n \in 1..Len(ranges) : ranges[n].start + Len(ranges[n].data) <= MaxAddr

(* C08: ranges are never empty; the accepted ones share no address, and    *)
(* overlap is the only reason to fail after pass 2.                        *)
Addresses(r) == r.start..(r.start + Len(r.data) - 1)
Shared == \E a, b \in 1..Len(ranges) : a # b /\ Addresses(ranges[a]) \cap Addresses(ranges[b]) # {}
Disjoint ==
  /\ \A n \in 1..Len(ranges) : ranges[n].data # <<>>
  /\ (ph = "encode" /\ recs = <<>>) \/ Succeeded => ~Shared
  /\ Failed /\ i = 1 /\ Len(diag) > 2 => Shared

(* C05 C06 C09: the object file is well formed, writes no address twice,   *)
(* and loads as exactly the bytes of the program at their addresses.       *)
CellsOf(a, b) == {<<a + k - 1, b[k]>> : k \in 1..Len(b)}
Image == UNION {CellsOf(AddressOf(n), BytesOf(n)) : n \in 1..Len(nodes)}
ObjectFile == Succeeded => /\ WellFormed(recs) /\ Unambiguous(recs)
                           /\ Cells(recs) = Image

(* C02: no operand is ever truncated into its field. *)
NoTruncation ==
  Succeeded => \A n \in 1..Len(nodes) : nodes[n].k = "ins" =>
    \E f \in Matching(nodes[n].low, nodes[n].args) :
       f.imm # 0 => Immediate(f, nodes[n].args) \in 0..Limit(f.w)

(* C13 C14: running means no verdict and an untouched output; a verdict is *)
(* success with a new output and nothing to say, or failure with an        *)
(* untouched output and a diagnostic.                                      *)
Verdict ==
  /\ exit \in {-1, 0, 1} /\ (exit = -1 <=> ~Done)
  /\ file = "new" <=> exit = 0
  /\ diag # <<>> <=> exit = 1

(* C18: a successful parse accounts for every token. *)
NothingPending == ph \notin {"read", "parse", "gen", "done"} => cur.k = "eof" /\ part = NoPart

Promises == LabelValues /\ Resolved /\ Placement /\ Bounds /\ Disjoint /\ ObjectFile
              /\ NoTruncation /\ Verdict /\ NothingPending
=============================================================================
