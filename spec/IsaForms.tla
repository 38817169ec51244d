------------------------------ MODULE IsaForms ------------------------------
(***************************************************************************)
(* The instruction table over every mnemonic and every list of up to three *)
(* operands (one value of each kind, and each register number at each      *)
(* register position): no operand list is ambiguous, no two instructions   *)
(* share a word.                                                           *)
(***************************************************************************)
EXTENDS Isa
VARIABLES mn, ops
vars == <<mn, ops>>
Ops == {Gpr(0), Gpr(1), Gpr(15), Num(0), Num(15), Num(255), Num(4095), Name("x"), Reg("dt"), Reg("st"), Reg("k"), Reg("i"), Reg("ind"), Reg("b"), Reg("f")}
Init == mn \in Mnemonics \cup {"bogus"} /\ ops = <<>>
Next == Len(ops) < 3 /\ \E o \in Ops : ops' = Append(ops, o) /\ mn' = mn
Spec == Init /\ [][Next]_vars
Unambiguous == Cardinality(Matching(mn, ops)) <= 1
NoWordShared == \A f \in Matching(mn, ops) :
  LET m == IF f.imm = 0 THEN 0 ELSE Limit(f.w)
  IN /\ Word(f, ops, m) \in 0..65535
     /\ Decode(Word(f, ops, m)).f = f
=============================================================================
