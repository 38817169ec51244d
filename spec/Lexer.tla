------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The scanner: one call of Scan is one token.  A scanner position is      *)
(* [p, l, c]: index of the next character, its line and its column, the    *)
(* latter two starting at 1 and counted in code points.                    *)
(*                                                                         *)
(* Token kinds: "eof" "nl" "dot" "colon" "comma" "comment" "id" "num"      *)
(* "str" "err".  A token's extent is reported as line, column and length   *)
(* in characters, clipped to its first line (line terminator included).    *)
(***************************************************************************)
EXTENDS Chars

Start == [p |-> 1, l |-> 1, c |-> 1]

Tok(k, l, c, n, v, txt, a, b) ==
  [k |-> k, l |-> l, c |-> c, n |-> n, v |-> v, txt |-> txt, a |-> a, b |-> b]

Eof == Tok("eof", 0, 0, 1, 0, "", 1, 0)

(* Position of the quote closing the string whose body starts at p, or 0.  *)
(* A backslash takes the following character with it, which must not be a  *)
(* newline; every other character, newlines included, stands for itself.   *)
RECURSIVE StringEnd(_, _)
StringEnd(s, p) ==
  IF p > Len(s) THEN 0
  ELSE IF s[p] = QUOTE THEN p
  ELSE IF s[p] = BACKSLASH
       THEN IF p < Len(s) /\ s[p + 1] # NL THEN StringEnd(s, p + 2) ELSE 0
       ELSE StringEnd(s, IF Clear(s, p, LAMBDA x : x \notin {QUOTE, BACKSLASH}) THEN p + Stride ELSE p + 1)

(* Numeric values saturate above 4095: TLC integers are 32 bits wide. *)
RECURSIVE ValueFrom(_, _, _, _, _)
ValueFrom(s, a, b, base, acc) ==
  IF a > b \/ acc > 4095 THEN acc
  ELSE ValueFrom(s, a + 1, b, base,
                 base * acc + (IF s[a] = 46 THEN 0 ELSE HexVal(s[a])))
Value(s, a, b, base) == ValueFrom(s, RunEnd(s, a, {46, 48}), b, base, 0)

(* The position after s[p..q-1], starting from position [p, l, c]. *)
RECURSIVE Advance(_, _, _, _, _)
Advance(s, p, q, l, c) ==
  IF p >= q THEN [p |-> q, l |-> l, c |-> c]
  ELSE IF s[p] = NL THEN Advance(s, p + 1, q, l + 1, 1)
  ELSE IF p + Stride < q /\ Clear(s, p, LAMBDA x : x # NL)
  THEN Advance(s, p + Stride, q, l, c + Stride)
  ELSE Advance(s, p + 1, q, l, c + 1)

(* Result of a scan step. *)
Got(tok, pos) == [tok |-> tok, pos |-> pos]

(* A lexical error stops the scanner: everything after it is skipped. *)
Bad(s, l, c, n, msg) ==
  Got(Tok("err", l, c, n, 0, msg, 1, 0), [p |-> Len(s) + 1, l |-> l, c |-> c])

Scan(s, pos) ==
  LET p  == RunEnd(s, pos.p, Blank)
      l  == pos.l
      c  == pos.c + (p - pos.p)
      One(k) == Got(Tok(k, l, c, 1, 0, "", p, p), [p |-> p + 1, l |-> l, c |-> c + 1])
      Run(k, q, v, txt, a, b) ==      \* a token s[p..q-1] inside one line
        Got(Tok(k, l, c, q - p, v, txt, a, b), [p |-> q, l |-> l, c |-> c + (q - p)])
  IN
  IF p > Len(s) THEN Got(Eof, [p |-> p, l |-> l, c |-> c])
  ELSE LET ch == s[p] IN
  CASE ch = NL  -> Got(Tok("nl", l, c, 1, 0, "", p, p), [p |-> p + 1, l |-> l + 1, c |-> 1])
    [] ch = 46  -> One("dot")
    [] ch = 58  -> One("colon")
    [] ch = 44  -> One("comma")
    [] ch = 59  -> Run("comment", SeekChar(s, p, NL), 0, "", p, p)
    [] ch \in IdStart ->
         LET q == RunEnd(s, p, IdCont) IN Run("id", q, 0, Spell(s, p, q - 1), p, q - 1)
    [] ch \in Digits ->
         LET q == RunEnd(s, p, Digits)
             v == Value(s, p, q - 1, 10)
         IN IF v <= 4095 THEN Run("num", q, v, "", p, q - 1)
            ELSE Bad(s, l, c, q - p,
                     "Decimal literal " \o Spell(s, p, q - 1) \o " not in range (0...4095).")
    [] ch \in {35, 36} ->            \* '#' and '$': one to three hexadecimal digits
         LET r == RunEnd(s, p + 1, HexDigs)
             q == IF r > p + 4 THEN p + 4 ELSE r
         IN IF r > p + 1 THEN Run("num", q, Value(s, p + 1, q - 1, 16), "", p, q - 1)
            ELSE Bad(s, l, c, 1, "Invalid hexadecimal literal starting with ($).")
    [] ch = 37 ->                    \* '%': any number of binary digits, '.' being 0
         LET q == RunEnd(s, p + 1, BinDigs)
             v == Value(s, p + 1, q - 1, 2)
         IN IF q = p + 1 THEN Bad(s, l, c, 1, "Invalid binary literal encountered.")
            ELSE IF v <= 4095 THEN Run("num", q, v, "", p, q - 1)
            ELSE Bad(s, l, c, q - p, "Binary literal not in range 0...4095.")
    [] ch = QUOTE ->
         LET e == StringEnd(s, p + 1)
             f == SeekChar(s, p, NL)     \* the extent is clipped to the first line
         IN IF e = 0 THEN Bad(s, l, c, 1, "Invalid quoted string literal.")
            ELSE Got(Tok("str", l, c, (IF f < e THEN f ELSE e) - p + 1, 0, "", p + 1, e - 1),
                     Advance(s, p, e + 1, l, c))
    [] ch = 91 ->                    \* '[': only [i] and [I]
         IF p + 2 <= Len(s) /\ s[p + 1] \in {73, 105} /\ s[p + 2] = 93
         THEN Run("id", p + 3, 0, Spell(s, p, p + 2), p, p + 2)
         ELSE Bad(s, l, c, 1, "Expected Index Register Indirect ([i]) not found.")
    [] OTHER -> Bad(s, l, c, 1, "Invalid character '" \o CharStr(ch) \o "'.")
=============================================================================
