------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text as the assembler sees it.  A source file is a sequence of Unicode  *)
(* code points (integers); names, diagnostics and output lines are TLA+    *)
(* strings.  Control and non-ASCII characters quoted in a diagnostic are   *)
(* spelled {n}, n being the code point in decimal; the driver that records *)
(* the implementation's output spells them the same way.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NL == 10
QUOTE == 34
BACKSLASH == 92

Digits   == 48..57
BinDigs  == {46, 48, 49}                       \* '.', '0', '1'
HexDigs  == (48..57) \cup (65..70) \cup (97..102)
Upper    == 65..90
Lower    == 97..122
IdStart  == Upper \cup Lower \cup {95}
IdCont   == IdStart \cup Digits
(* Unicode White_Space without the newline, which is a token of its own. *)
Blank    == {9, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
              \cup (8192..8202)

ToLowerC(c) == IF c \in Upper THEN c + 32 ELSE c

Ascii == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S",
  "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`",
  "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
  "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

CharStr(c) == IF c \in 32..126 THEN Ascii[c - 31] ELSE "{" \o ToString(c) \o "}"

(* The recursive operators below halve their interval, or take long        *)
(* uniform stretches in strides: TLC handles deep recursion badly.         *)
Half(a, b) == (a + b) \div 2

(* The string spelled by s[a..b]. *)
RECURSIVE Spell(_, _, _)
Spell(s, a, b) == IF a > b THEN "" ELSE IF a = b THEN CharStr(s[a])
                  ELSE Spell(s, a, Half(a, b)) \o Spell(s, Half(a, b) + 1, b)

RECURSIVE SpellLower(_, _, _)
SpellLower(s, a, b) == IF a > b THEN "" ELSE IF a = b THEN CharStr(ToLowerC(s[a]))
                       ELSE SpellLower(s, a, Half(a, b)) \o SpellLower(s, Half(a, b) + 1, b)

Stride == 32
Clear(s, p, T(_)) == p + Stride <= Len(s) /\ \A k \in p..(p + Stride - 1) : T(s[k])

(* First position at or after p whose character is outside set S. *)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, p, S) ==
  IF p <= Len(s) /\ s[p] \in S
  THEN RunEnd(s, IF Clear(s, p, LAMBDA x : x \in S) THEN p + Stride ELSE p + 1, S)
  ELSE p

(* First position at or after p that holds character c, or Len(s) + 1. *)
RECURSIVE SeekChar(_, _, _)
SeekChar(s, p, c) ==
  IF p <= Len(s) /\ s[p] # c
  THEN SeekChar(s, IF Clear(s, p, LAMBDA x : x # c) THEN p + Stride ELSE p + 1, c)
  ELSE p

(* UTF-8. *)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Utf8(c) ==
  CASE c < 128   -> <<c>>
    [] c >= 128 /\ c < 2048    -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c >= 2048 /\ c < 65536  -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] c >= 65536              -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                                    128 + ((c \div 64) % 64), 128 + (c % 64)>>

CountFrom(s, a, b, c) == Cardinality({k \in a..b : s[k] >= c})
Utf8Size(s, a, b) == (b - a + 1) + CountFrom(s, a, b, 128) + CountFrom(s, a, b, 2048) + CountFrom(s, a, b, 65536)

RECURSIVE Utf8Bytes(_, _, _)
Utf8Bytes(s, a, b) ==
  IF a > b THEN <<>>
  ELSE IF \A k \in a..b : s[k] < 128 THEN SubSeq(s, a, b)
  ELSE IF a = b THEN Utf8(s[a])
  ELSE Utf8Bytes(s, a, Half(a, b)) \o Utf8Bytes(s, Half(a, b) + 1, b)

(* Decoding: [ok, text].  Overlong forms, surrogates, values above 10FFFF   *)
(* and truncated sequences are not UTF-8.                                  *)
Utf8Step(b, p) ==       \* [n, c]: n bytes at p make code point c; n = 0: invalid
  LET at(k)  == IF p + k <= Len(b) THEN b[p + k] ELSE 0
      cont(k) == at(k) \in 128..191
      lo(k)  == at(k) - 128
      x == b[p]
  IN CASE x < 128 -> [n |-> 1, c |-> x]
       [] x \in 194..223 /\ cont(1) -> [n |-> 2, c |-> 64 * (x - 192) + lo(1)]
       [] x \in 224..239 /\ cont(1) /\ cont(2) ->
            LET c == 4096 * (x - 224) + 64 * lo(1) + lo(2)
            IN [n |-> IF c < 2048 \/ c \in 55296..57343 THEN 0 ELSE 3, c |-> c]
       [] x \in 240..244 /\ cont(1) /\ cont(2) /\ cont(3) ->
            LET c == 262144 * (x - 240) + 4096 * lo(1) + 64 * lo(2) + lo(3)
            IN [n |-> IF c < 65536 \/ c > 1114111 THEN 0 ELSE 4, c |-> c]
       [] OTHER -> [n |-> 0, c |-> 0]

NotUtf8 == [ok |-> FALSE, text |-> <<>>]

RECURSIVE Utf8From(_, _, _)      \* b[p..Len(b)]
Utf8From(b, p, acc) ==
  IF p > Len(b) THEN [ok |-> TRUE, text |-> acc]
  ELSE LET s == Utf8Step(b, p) IN
       IF s.n = 0 THEN NotUtf8 ELSE Utf8From(b, p + s.n, Append(acc, s.c))

(* No sequence extends across a byte that is not a continuation byte, so   *)
(* the text may be cut before any such byte.                               *)
RECURSIVE Utf8Decode(_)
Utf8Decode(b) ==
  IF \A p \in 1..Len(b) : b[p] < 128 THEN [ok |-> TRUE, text |-> b]
  ELSE IF Len(b) <= 16 THEN Utf8From(b, 1, <<>>)
  ELSE LET m  == Len(b) \div 2
           cs == {p \in (m - 3)..m : b[p] \notin 128..191}
       IN IF cs = {} THEN NotUtf8
          ELSE LET c == CHOOSE p \in cs : TRUE
                   x == Utf8Decode(SubSeq(b, 1, c - 1))
                   y == Utf8Decode(SubSeq(b, c, Len(b)))
               IN IF x.ok /\ y.ok THEN [ok |-> TRUE, text |-> x.text \o y.text] ELSE NotUtf8

(* Numbers as text. *)
HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF c \in Upper THEN c - 55 ELSE c - 87

UpHex == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>
LoHex == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>

RECURSIVE HexU(_)
HexU(n) == IF n < 16 THEN UpHex[n + 1] ELSE HexU(n \div 16) \o UpHex[(n % 16) + 1]
RECURSIVE HexL(_)
HexL(n) == IF n < 16 THEN LoHex[n + 1] ELSE HexL(n \div 16) \o LoHex[(n % 16) + 1]

HexU3(n) == UpHex[n \div 256 + 1] \o UpHex[((n \div 16) % 16) + 1] \o UpHex[(n % 16) + 1]

RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(ss, sep, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                           ELSE JoinFrom(ss, sep, a, Half(a, b)) \o sep \o JoinFrom(ss, sep, Half(a, b) + 1, b)
Join(ss, sep) == JoinFrom(ss, sep, 1, Len(ss))
=============================================================================
