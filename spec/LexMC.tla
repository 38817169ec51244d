------------------------------- MODULE LexMC -------------------------------
(***************************************************************************)
(* The scanner on its own, over every arrangement of up to N tokens and    *)
(* fillers.  A behaviour builds a text piece by piece, then scans it.      *)
(*                                                                         *)
(* Layout    what separates two tokens (any blank, or a comment and its    *)
(*           newline) does not change the sequence of tokens read.         *)
(* Exact     the tokens read are the pieces laid down, in order.           *)
(* Progress  every scan consumes something, up to the end of the text.     *)
(* Located   a token's line and column are those of its first character.   *)
(***************************************************************************)
EXTENDS Lexer
CONSTANTS MaxTokens, MaxFill, Fillers

VARIABLES text, laid, fill, pos, got, mode
vars == <<text, laid, fill, pos, got, mode>>

(* Pieces: text, and the kind and value they must be read back as. *)
P(t, k, v, x) == [t |-> t, k |-> k, v |-> v, x |-> x]
Pieces == << P(<<46>>, "dot", 0, ""), P(<<58>>, "colon", 0, ""), P(<<44>>, "comma", 0, ""),
             P(<<100, 95, 57>>, "id", 0, "d_9"), P(<<86, 97>>, "id", 0, "Va"),
             P(<<91, 105, 93>>, "id", 0, "[i]"), P(<<49, 50>>, "num", 12, ""),
             P(<<36, 48, 70, 102>>, "num", 255, ""), P(<<37, 49, 46, 49>>, "num", 5, ""),
             P(<<34, 97, 59, 32, 233, 34>>, "str", 0, ""), P(<<34, 10, 92, 34, 34>>, "str", 0, ""),
             P(<<10>>, "nl", 0, ""), P(<<59, 34, 233, 10>>, "comment", 0, "") >>

Few  == { <<32>>, <<9, 8195>> }
Many == { <<32>>, <<9>>, <<13, 160>>, <<8195, 12288>> }

(* The tokens of a piece: a comment is followed by the newline that ends it. *)
Reads(n) == IF Pieces[n].k = "comment"
            THEN << [k |-> "comment", v |-> 0, x |-> ""], [k |-> "nl", v |-> 0, x |-> ""] >>
            ELSE << [k |-> Pieces[n].k, v |-> Pieces[n].v, x |-> Pieces[n].x] >>

Init == /\ text = <<>> /\ laid = <<>> /\ fill = 0 /\ pos = Start /\ got = <<>> /\ mode = "lay"

(* Two pieces may touch unless they would read as one token. *)
Glues(m, n) ==
  LET a == Pieces[m] b == Pieces[n] IN
  \/ a.k \in {"id", "num"} /\ b.k \in {"id", "num"}
  \/ m = 9 /\ n = 1                       \* %1.1 followed by a dot
Lay == /\ mode = "lay" /\ Len(laid) < MaxTokens
       /\ \E n \in 1..Len(Pieces) :
            /\ Len(laid) > 0 /\ Glues(laid[Len(laid)], n) => fill > 0
            /\ text' = text \o Pieces[n].t
            /\ laid' = Append(laid, n)
       /\ fill' = 0 /\ UNCHANGED <<pos, got, mode>>
Fill == /\ mode = "lay" /\ fill < MaxFill
        /\ \E f \in Fillers : text' = text \o f
        /\ fill' = fill + 1 /\ UNCHANGED <<laid, pos, got, mode>>
Go == /\ mode = "lay" /\ Len(laid) > 0 /\ mode' = "scan" /\ UNCHANGED <<text, laid, fill, pos, got>>

Step == /\ mode = "scan"
        /\ LET r == Scan(text, pos) IN
             /\ pos' = r.pos
             /\ IF r.tok.k \in {"eof", "err"}
                THEN /\ mode' = r.tok.k /\ got' = got
                ELSE /\ mode' = mode /\ got' = Append(got, r.tok)
        /\ UNCHANGED <<text, laid, fill>>
Next == Lay \/ Fill \/ Go \/ Step
Spec == Init /\ [][Next]_vars

RECURSIVE AllReads(_)
AllReads(ls) == IF ls = <<>> THEN <<>> ELSE Reads(Head(ls)) \o AllReads(Tail(ls))
Seen == [n \in 1..Len(got) |-> [k |-> got[n].k, v |-> got[n].v, x |-> got[n].txt]]

Exact == /\ mode # "err"
         /\ mode = "eof" => Seen = AllReads(laid)

(* Line and column of character p, by counting. *)
LineOf(p) == 1 + Cardinality({q \in 1..(p - 1) : text[q] = NL})
ColOf(p)  == p - (CHOOSE q \in 0..(p - 1) : /\ (q = 0 \/ text[q] = NL)
                                            /\ \A z \in (q + 1)..(p - 1) : text[z] # NL)
First(t) == IF t.k = "str" THEN t.a - 1 ELSE t.a
Located == \A n \in 1..Len(got) : /\ got[n].l = LineOf(First(got[n]))
                                  /\ got[n].c = ColOf(First(got[n]))
PosOK == mode = "scan" => pos.l = LineOf(pos.p) /\ pos.c = ColOf(pos.p)

Progress == [][mode = "scan" => (pos'.p > pos.p \/ mode' = "eof")]_vars
=============================================================================
