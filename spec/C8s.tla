-------------------------------- MODULE C8s --------------------------------
(***************************************************************************)
(* The assembler as a state machine: one input text in, an exit status, a  *)
(* diagnostic and an Intel HEX object file out.  The stages are those of   *)
(* the implementation (scanner and parser interleaved token by token, then *)
(* pass 1 over the nodes, pass 2 over the nodes, the overlap check, the    *)
(* encoding of the records, and finally the creation of the output file),  *)
(* and every step of a stage is a named action.                            *)
(*                                                                         *)
(* The machine is deterministic for a given input; nondeterminism is in    *)
(* Init (which input) for the modules that extend this one.                *)
(***************************************************************************)
EXTENDS Lexer, Isa

CONSTANTS FileName(_),   \* of an input: its path as diagnostics spell it
          Program(_)     \* of an input: argv[0]

VARIABLES inp,           \* identifies the input
          src,           \* its bytes, and once read its text: a sequence of code points
          ph,            \* stage
          sc,            \* scanner position
          cur, nxt,      \* the two tokens the parser holds
          pm,            \* parser mode
          part,          \* the node being parsed
          nodes,         \* the program: directives, labels and instructions
          i,             \* the node (or range) the stage is looking at
          addr,          \* pass 1: address counter
          labels,        \* pass 1: label -> value
          rng,           \* pass 2: range being filled, [start, data]
          ranges,        \* pass 2: ranges completed
          recs,          \* object file records: sequences of bytes
          file,          \* the output file: "old" or "new"
          diag,          \* lines of the diagnostic
          exit           \* -1 while running

vars == <<inp, src, ph, sc, cur, nxt, pm, part, nodes, i, addr, labels, rng, ranges, recs, file, diag, exit>>

MaxAddr == 4095
NoPart  == [k |-> "none", txt |-> "", low |-> "", l |-> 0, c |-> 0, n |-> 0, args |-> <<>>]
Unread  == [k |-> "unread", l |-> 0, c |-> 0, n |-> 1, v |-> 0, txt |-> "", a |-> 1, b |-> 0]

InitFor(id, bytes) ==
  /\ inp = id /\ src = bytes /\ ph = "read" /\ sc = Start
  /\ cur = Unread /\ nxt = Unread /\ pm = "prime1" /\ part = NoPart /\ nodes = <<>>
  /\ i = 1 /\ addr = 0 /\ labels = <<>> /\ rng = [start |-> 0, data |-> <<>>] /\ ranges = <<>>
  /\ recs = <<>> /\ file = "old" /\ diag = <<>> /\ exit = -1

(***************************************************************************)
(* Diagnostics.                                                            *)
(***************************************************************************)
Loc(t) == FileName(inp) \o ":" \o ToString(t.l) \o ":" \o ToString(t.c)
            \o (IF t.n = 1 THEN "" ELSE "-" \o ToString(t.c + t.n - 1))

At(t, msg) == Loc(t) \o ": error: " \o msg

Stop(lines) == /\ ph' = "done" /\ exit' = 1 /\ diag' = lines

TokenName(t) ==
  CASE t.k = "comment" -> "single-line comment"
    [] t.k = "dot"     -> "directive marker"
    [] t.k = "colon"   -> "label marker"
    [] t.k = "comma"   -> "comma"
    [] t.k = "nl"      -> "newline"
    [] t.k = "id"      -> "identifier (" \o t.txt \o ")"
    [] t.k = "str"     -> "string literal (\"" \o Spell(src, t.a, t.b) \o "\")"
    [] t.k = "num"     -> "numeric literal (" \o ToString(t.v) \o " / $" \o HexU(t.v) \o ")"

Expecting(exps) == IF Len(exps) = 1 THEN exps[1] ELSE "one of: " \o Join(exps, ", ")

SyntaxError(t, exps) ==
  CASE t.k = "eof" -> <<"error: Unexpected end-of-file reached, expecting " \o Expecting(exps) \o ".">>
    [] t.k = "err" -> <<At(t, "Encountered syntax error: " \o t.txt),
                        At(t, "Expecting " \o Expecting(exps) \o ".")>>
    [] OTHER       -> <<At(t, "Unexpected token found: " \o TokenName(t)
                                \o ", expecting " \o Expecting(exps) \o ".")>>

Complain(msg) == Program(inp) \o ": error: " \o msg

(***************************************************************************)
(* Reading the input: it must be UTF-8.                                    *)
(***************************************************************************)
ReadInput ==
  /\ ph = "read"
  /\ LET d == Utf8Decode(src) IN
     \/ /\ d.ok /\ src' = d.text /\ ph' = "parse" /\ UNCHANGED <<diag, exit>>
     \/ /\ ~d.ok /\ UNCHANGED src
        /\ Stop(<<Complain("Unable to read contents of input file '" \o FileName(inp) \o "'"),
                  Complain("stream did not contain valid UTF-8")>>)
  /\ UNCHANGED <<inp, sc, cur, nxt, pm, part, nodes, i, addr, labels, rng, ranges, recs, file>>

(***************************************************************************)
(* Scanning and parsing.  The parser sees cur and nxt; Shift consumes cur  *)
(* and scans one more token.                                               *)
(***************************************************************************)
Shift == LET r == Scan(src, sc) IN cur' = nxt /\ nxt' = r.tok /\ sc' = r.pos

KeepBack == UNCHANGED <<inp, src, i, addr, labels, rng, ranges, recs, file>>   \* later stages
Parsing(mode) == ph = "parse" /\ pm = mode

Node(k, t) == [k |-> k, txt |-> t.txt, low |-> SpellLower(src, t.a, t.b),
               l |-> t.l, c |-> t.c, n |-> t.n, args |-> <<>>]

SyntaxStop(exps) == /\ Stop(SyntaxError(cur, exps))
                    /\ UNCHANGED <<sc, cur, nxt, pm, part, nodes>> /\ KeepBack

Prime ==
  \/ /\ Parsing("prime1") /\ Shift /\ pm' = "prime2"
     /\ UNCHANGED <<ph, part, nodes, diag, exit>> /\ KeepBack
  \/ /\ Parsing("prime2") /\ Shift /\ pm' = "stmt"
     /\ UNCHANGED <<ph, part, nodes, diag, exit>> /\ KeepBack

(* Between statements comments and newlines mean nothing. *)
SkipTrivia ==
  /\ Parsing("stmt") /\ cur.k \in {"comment", "nl"} /\ Shift
  /\ UNCHANGED <<ph, pm, part, nodes, diag, exit>> /\ KeepBack

LabelName ==
  /\ Parsing("stmt") /\ cur.k = "id" /\ nxt.k = "colon" /\ Shift
  /\ part' = Node("label", cur) /\ pm' = "colon"
  /\ UNCHANGED <<ph, nodes, diag, exit>> /\ KeepBack

LabelColon ==
  /\ Parsing("colon") /\ Shift
  /\ nodes' = Append(nodes, part) /\ part' = NoPart /\ pm' = "stmt"
  /\ UNCHANGED <<ph, diag, exit>> /\ KeepBack

Mnemonic ==
  /\ Parsing("stmt") /\ cur.k = "id" /\ nxt.k # "colon" /\ Shift
  /\ part' = Node("ins", cur) /\ pm' = "fields"
  /\ UNCHANGED <<ph, nodes, diag, exit>> /\ KeepBack

DirectiveDot ==
  /\ Parsing("stmt") /\ cur.k = "dot" /\ Shift /\ pm' = "dirname"
  /\ UNCHANGED <<ph, part, nodes, diag, exit>> /\ KeepBack

BadStatement ==
  /\ Parsing("stmt") /\ cur.k \notin {"comment", "nl", "id", "dot", "eof"}
  /\ SyntaxStop(<<"directive marker", "identifier">>)

DirectiveName ==
  /\ Parsing("dirname") /\ cur.k = "id" /\ Shift
  /\ part' = Node("dir", cur) /\ pm' = "lits"
  /\ UNCHANGED <<ph, nodes, diag, exit>> /\ KeepBack

BadDirectiveName == /\ Parsing("dirname") /\ cur.k # "id" /\ SyntaxStop(<<"identifier">>)

(* Where an operand may stand: a newline or a comment ends the list (even  *)
(* after a comma); where a comma may stand: anything else ends it.         *)
Finish == /\ nodes' = Append(nodes, part) /\ part' = NoPart /\ pm' = "stmt"
          /\ UNCHANGED <<ph, sc, cur, nxt, diag, exit>> /\ KeepBack

EndList ==
  \/ /\ ph = "parse" /\ pm \in {"lits", "fields"} /\ cur.k \in {"nl", "comment"} /\ Finish
  \/ /\ ph = "parse" /\ pm \in {"litsep", "fieldsep"} /\ cur.k # "comma" /\ Finish

Separator ==
  /\ ph = "parse" /\ pm \in {"litsep", "fieldsep"} /\ cur.k = "comma" /\ Shift
  /\ pm' = (IF pm = "litsep" THEN "lits" ELSE "fields")
  /\ UNCHANGED <<ph, part, nodes, diag, exit>> /\ KeepBack

Literal ==
  /\ Parsing("lits") /\ cur.k \in {"num", "str"} /\ Shift
  /\ part' = [part EXCEPT !.args = Append(@, [k |-> cur.k, v |-> cur.v, a |-> cur.a, b |-> cur.b])]
  /\ pm' = "litsep"
  /\ UNCHANGED <<ph, nodes, diag, exit>> /\ KeepBack

BadLiteral ==
  /\ Parsing("lits") /\ cur.k \notin {"num", "str", "nl", "comment"}
  /\ SyntaxStop(<<"numeric literal", "string literal">>)

Field ==
  /\ Parsing("fields") /\ cur.k \in {"num", "id"} /\ Shift
  /\ part' = [part EXCEPT !.args = Append(@,
                IF cur.k = "num" THEN Num(cur.v)
                ELSE Operand(cur.txt, SpellLower(src, cur.a, cur.b)))]
  /\ pm' = "fieldsep"
  /\ UNCHANGED <<ph, nodes, diag, exit>> /\ KeepBack

BadField ==
  /\ Parsing("fields") /\ cur.k \notin {"num", "id", "nl", "comment"}
  /\ SyntaxStop(<<"instruction field">>)

EndOfInput ==
  /\ Parsing("stmt") /\ cur.k = "eof" /\ ph' = "pass1"
  /\ UNCHANGED <<sc, cur, nxt, pm, part, nodes, diag, exit>> /\ KeepBack

Parse == \/ Prime \/ SkipTrivia \/ LabelName \/ LabelColon \/ Mnemonic \/ DirectiveDot
         \/ BadStatement \/ DirectiveName \/ BadDirectiveName \/ EndList \/ Separator
         \/ Literal \/ BadLiteral \/ Field \/ BadField \/ EndOfInput

(***************************************************************************)
(* Directives.                                                             *)
(***************************************************************************)
DirError(d) ==     \* "" if the directive is well formed
  CASE d.low \in {"org", "equ"} ->
         IF Len(d.args) # 1
         THEN "Incorrect number of parameters (" \o ToString(Len(d.args))
                \o ") for directive ." \o d.low \o ", expecting 1."
         ELSE IF d.args[1].k # "num"
         THEN "Directive ." \o d.low \o " requires 1 numeric literal in the range $000-$FFF."
         ELSE ""
    [] d.low = "db" ->
         LET big == {n \in 1..Len(d.args) : d.args[n].k = "num" /\ d.args[n].v > 255}
         IN IF Len(d.args) = 0
            THEN "Incorrect number of parameters (0) for directive .db, expecting 1 or more."
            ELSE IF big # {}
            THEN "All numeric parameters to .db must be 1-byte literals ($"
                   \o HexU(d.args[CHOOSE n \in big : \A m \in big : n <= m].v) \o " > $FF)."
            ELSE ""
    [] OTHER -> "Unrecognized directive '." \o d.txt \o "'."

IsEqu(n) == n <= Len(nodes) /\ nodes[n].k = "dir" /\ nodes[n].low = "equ" /\ DirError(nodes[n]) = ""

ArgSize(s, x) == IF x.k = "num" THEN 1 ELSE Utf8Size(s, x.a, x.b)

RECURSIVE ArgSizes(_, _, _, _)
ArgSizes(s, xs, a, b) == IF a > b THEN 0 ELSE IF a = b THEN ArgSize(s, xs[a])
                         ELSE ArgSizes(s, xs, a, Half(a, b)) + ArgSizes(s, xs, Half(a, b) + 1, b)
AllNums(d) == \A n \in 1..Len(d.args) : d.args[n].k = "num"
DbSize(d) == IF AllNums(d) THEN Len(d.args) ELSE ArgSizes(src, d.args, 1, Len(d.args))

RECURSIVE ArgBytes(_, _, _, _)
ArgBytes(s, xs, a, b) == IF a > b THEN <<>>
                         ELSE IF a = b THEN (IF xs[a].k = "num" THEN <<xs[a].v>> ELSE Utf8Bytes(s, xs[a].a, xs[a].b))
                         ELSE ArgBytes(s, xs, a, Half(a, b)) \o ArgBytes(s, xs, Half(a, b) + 1, b)
DbBytes(d) == IF AllNums(d) THEN [n \in 1..Len(d.args) |-> d.args[n].v] ELSE ArgBytes(src, d.args, 1, Len(d.args))

(***************************************************************************)
(* Pass 1: addresses and labels.                                           *)
(***************************************************************************)
KeepFront == UNCHANGED <<inp, src, sc, cur, nxt, pm, part, nodes>>             \* earlier stages
Keep1     == KeepFront /\ UNCHANGED <<rng, ranges, recs, file>>
In1       == ph = "pass1" /\ i <= Len(nodes)
This      == nodes[i]
Stop1(msg) == /\ Stop(<<At(This, msg)>>) /\ UNCHANGED <<i, addr, labels>> /\ Keep1
Step1(n)   == /\ i' = i + n /\ UNCHANGED <<ph, diag, exit>> /\ Keep1

BadDirective == /\ In1 /\ This.k = "dir" /\ DirError(This) # "" /\ Stop1(DirError(This))

GoodDir == In1 /\ This.k = "dir" /\ DirError(This) = ""

Db1 ==
  /\ GoodDir /\ This.low = "db"
  /\ LET size == DbSize(This)
         what == "Directive (.db [" \o ToString(size) \o " bytes])"
     IN \/ /\ size > MaxAddr
           /\ Stop1(what \o " size " \o ToString(size) \o " exceeds 4096 bytes.")
        \/ /\ size <= MaxAddr /\ addr + size > MaxAddr
           /\ Stop1(what \o " would cause the 12-bit address counter to overflow.")
        \/ /\ addr + size <= MaxAddr
           /\ addr' = addr + size /\ UNCHANGED labels /\ Step1(1)

Org1 == /\ GoodDir /\ This.low = "org" /\ addr' = This.args[1].v /\ UNCHANGED labels /\ Step1(1)

StrayEqu == /\ GoodDir /\ This.low = "equ"
            /\ Stop1("A constant must be defined immediately following a label name.")

LabelDefined ==       \* the label of a constant takes its .equ with it
  /\ In1 /\ This.k = "label" /\ This.txt \notin DOMAIN labels
  /\ LET equ == IsEqu(i + 1)
     IN /\ labels' = labels @@ (This.txt :> IF equ THEN nodes[i + 1].args[1].v ELSE addr)
        /\ UNCHANGED addr /\ Step1(IF equ THEN 2 ELSE 1)

LabelRedefined ==
  /\ In1 /\ This.k = "label" /\ This.txt \in DOMAIN labels
  /\ Stop1("Attempted re-definition of label '" \o This.txt \o "'.")

Instruction1 ==
  /\ In1 /\ This.k = "ins"
  /\ \/ /\ addr + 2 > MaxAddr /\ Stop1("Instruction would cause address counter to overflow $FFF.")
     \/ /\ addr + 2 <= MaxAddr /\ addr' = addr + 2 /\ UNCHANGED labels /\ Step1(1)

EndOfPass1 == /\ ph = "pass1" /\ i > Len(nodes) /\ ph' = "pass2" /\ i' = 1
              /\ UNCHANGED <<addr, labels, diag, exit>> /\ Keep1

Pass1 == \/ BadDirective \/ Db1 \/ Org1 \/ StrayEqu \/ LabelDefined \/ LabelRedefined
         \/ Instruction1 \/ EndOfPass1

(***************************************************************************)
(* Pass 2: bytes.                                                          *)
(***************************************************************************)
Keep2 == KeepFront /\ UNCHANGED <<addr, labels, recs, file>>
In2   == ph = "pass2" /\ i <= Len(nodes)
Step2 == /\ i' = i + 1 /\ UNCHANGED <<ph, diag, exit>> /\ Keep2
Put(bytes) == rng' = [rng EXCEPT !.data = @ \o bytes] /\ UNCHANGED ranges

Closed == IF rng.data = <<>> THEN ranges ELSE Append(ranges, rng)    \* empty ranges vanish

(* The operand supplying form f's immediate, resolved; -1 if it is an      *)
(* undefined label.                                                        *)
Immediate(f, ops) ==
  IF f.imm = 0 THEN 0
  ELSE LET op == ops[f.imm] IN
       IF op.k = "num" THEN op.v
       ELSE IF op.txt \in DOMAIN labels THEN labels[op.txt] ELSE -1

(* [ok, word, msg] *)
Encode(ins) ==
  LET fs == Matching(ins.low, ins.args) IN
  IF fs = {}
  THEN [ok |-> FALSE, word |-> 0, msg |->
          "No matching instruction: " \o ins.txt
            \o (IF ins.args = <<>> THEN ""
                ELSE " " \o Join([n \in 1..Len(ins.args) |-> Describe(ins.args[n])], ", ")) \o "."]
  ELSE LET f == CHOOSE g \in fs : TRUE
           v == Immediate(f, ins.args)
       IN IF v = -1
          THEN [ok |-> FALSE, word |-> 0, msg |-> "Unable to resolve label " \o ins.args[f.imm].txt \o "."]
          ELSE IF f.imm # 0 /\ v > Limit(f.w)
          THEN [ok |-> FALSE, word |-> 0, msg |->
                  (IF f.w = 8 THEN "Found 12-bit numeric value $" ELSE "Found 8/12-bit numeric value $")
                  \o HexU(v) \o ", expecting " \o ToString(f.w) \o "-bit value."]
          ELSE [ok |-> TRUE, word |-> Word(f, ins.args, v), msg |-> ""]

Instruction2 ==
  /\ In2 /\ This.k = "ins"
  /\ LET e == Encode(This) IN
     \/ /\ e.ok /\ Put(BigEndian(e.word)) /\ Step2
     \/ /\ ~e.ok /\ Stop(<<At(This, e.msg)>>) /\ UNCHANGED <<i, rng, ranges>> /\ Keep2

Db2  == In2 /\ This.k = "dir" /\ This.low = "db" /\ Put(DbBytes(This)) /\ Step2

Org2 == /\ In2 /\ This.k = "dir" /\ This.low = "org"
        /\ ranges' = Closed /\ rng' = [start |-> This.args[1].v, data |-> <<>>] /\ Step2

Nothing2 == /\ In2 /\ (This.k = "label" \/ (This.k = "dir" /\ This.low = "equ"))
            /\ UNCHANGED <<rng, ranges>> /\ Step2

EndOfPass2 == /\ ph = "pass2" /\ i > Len(nodes) /\ ph' = "overlap" /\ i' = 1
              /\ ranges' = Closed /\ UNCHANGED <<rng, diag, exit>> /\ Keep2

Pass2 == Instruction2 \/ Db2 \/ Org2 \/ Nothing2 \/ EndOfPass2

(***************************************************************************)
(* Overlap check.  Every overlapping pair is reported, in source order.    *)
(***************************************************************************)
First(r) == r.start
Last(r)  == r.start + Len(r.data) - 1
Meet(r, s) == First(r) <= Last(s) /\ First(s) <= Last(r)

RangeText(r) == "  range $" \o HexU3(First(r)) \o "...$" \o HexU3(Last(r))
                  \o " (" \o ToString(Len(r.data)) \o " bytes)"

RECURSIVE Row(_, _, _, _)        \* the partners of range a among ranges lo..hi
Row(rs, a, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi
  THEN IF Meet(rs[a], rs[lo])
       THEN <<Complain(RangeText(rs[a]) \o " overlaps with:"), Complain(RangeText(rs[lo]))>>
       ELSE <<>>
  ELSE Row(rs, a, lo, Half(lo, hi)) \o Row(rs, a, Half(lo, hi) + 1, hi)

RECURSIVE Report(_, _, _)        \* two lines per overlapping pair, in source order
Report(rs, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi
  THEN IF \E b \in (lo + 1)..Len(rs) : Meet(rs[lo], rs[b]) THEN Row(rs, lo, lo + 1, Len(rs)) ELSE <<>>
  ELSE Report(rs, lo, Half(lo, hi)) \o Report(rs, Half(lo, hi) + 1, hi)

Overlap ==
  /\ ph = "overlap"
  /\ LET lines == Report(ranges, 1, Len(ranges)) IN
     \/ /\ lines # <<>>
        /\ Stop(<<Complain("Input file specifies overlapping data ranges."),
                  Complain("Data from one section has overflowed into the adjacent.")>> \o lines)
     \/ /\ lines = <<>> /\ ph' = "encode" /\ UNCHANGED <<diag, exit>>
  /\ addr' = 0 /\ UNCHANGED <<i, rng, ranges, labels, recs, file>> /\ KeepFront

(***************************************************************************)
(* Object file: Intel HEX, one record per step; addr is the offset of the  *)
(* next record in range i.  The output appears only when it is complete.   *)
(***************************************************************************)
RECURSIVE SumFrom(_, _)
SumFrom(bytes, n) == IF n > Len(bytes) THEN 0 ELSE bytes[n] + SumFrom(bytes, n + 1)
Sum(bytes) == SumFrom(bytes, 1)

Record(type, a, data) ==
  LET body == <<Len(data), a \div 256, a % 256, type>> \o data
  IN Append(body, (256 - (Sum(body) % 256)) % 256)

EofRecord == Record(1, 0, <<>>)
PerRecord == 16

Min(a, b) == IF a < b THEN a ELSE b

KeepE == KeepFront /\ UNCHANGED <<rng, ranges, labels, diag>>

EmitRecord ==
  /\ ph = "encode" /\ i <= Len(ranges)
  /\ LET r == ranges[i]
         e == Min(addr + PerRecord, Len(r.data))
     IN /\ recs' = Append(recs, Record(0, r.start + addr, SubSeq(r.data, addr + 1, e)))
        /\ IF e = Len(r.data) THEN i' = i + 1 /\ addr' = 0 ELSE i' = i /\ addr' = e
  /\ UNCHANGED <<ph, file, exit>> /\ KeepE

EmitEof ==
  /\ ph = "encode" /\ i > Len(ranges)
  /\ recs' = Append(recs, EofRecord) /\ ph' = "output"
  /\ UNCHANGED <<i, addr, file, exit>> /\ KeepE

WriteOutput ==
  /\ ph = "output" /\ file' = "new" /\ exit' = 0 /\ ph' = "done"
  /\ UNCHANGED <<i, addr, recs>> /\ KeepE

Next == ReadInput \/ Parse \/ Pass1 \/ Pass2 \/ Overlap \/ EmitRecord \/ EmitEof \/ WriteOutput

Done == ph = "done"
=============================================================================
