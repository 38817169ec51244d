------------------------------- MODULE IsaMC -------------------------------
(***************************************************************************)
(* The instruction table and its inverse, over all 65,536 words and over   *)
(* all operand lists.                                                      *)
(***************************************************************************)
EXTENDS Lexer, Isa, Json
VARIABLES w
(* From a high byte (as a negative number) to each word that has it. *)
Init == w \in {-n : n \in 1..256}
Next == w < 0 /\ \E b \in 0..255 : w' = 256 * (-w - 1) + b
Spec == Init /\ [][Next]_w

(* Single    no word has two readings                                       *)
(* Inverse   assembling the decoded instruction gives the word back         *)
(* Again     the canonical word decodes to the same instruction             *)
(* Chosen    the decoded operands select the decoded form and no other      *)
(* Width     the decoded immediate fits its field                           *)
Table == w >= 0 =>
  LET fs == FormsFor(w)
      d  == Decode(w)
      c  == Canonical(w)
      Single  == Cardinality(fs) <= 1
      Inverse == c = IF fs # {} THEN Canon(w) ELSE 0
      Again   == Decode(c) = d
      Chosen  == Matching(d.f.mn, d.ops) = {d.f}
      Width   == d.f.imm # 0 => d.ops[d.f.imm].v <= Limit(d.f.w)
  IN /\ Single /\ Inverse /\ Again /\ Chosen /\ Width
     /\ PrintT("WORD " \o ToJson([w |-> w, c |-> c, k |-> fs # {}, t |-> Render(w)]))
=============================================================================
