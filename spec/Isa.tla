-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* The instruction set, as a table.  A form is a mnemonic, the kinds of    *)
(* operands it takes, the constant bits of its word, and which operand     *)
(* (0: none) supplies the x nibble, the y nibble and the immediate, the    *)
(* latter being w bits wide.                                               *)
(*                                                                         *)
(* Operands:  [k |-> kind, v |-> number]   kinds "gpr" "dt" "st" "k" "i"   *)
(* "ind" "b" "f", "num" (a literal) and "id" (a label, named by txt).      *)
(* A form asks for "imm" where a literal or a label may stand, and for     *)
(* "v0" where only register zero may.                                      *)
(***************************************************************************)
EXTENDS Chars

Form(mn, kinds, base, x, y, imm, w) ==
  [mn |-> mn, kinds |-> kinds, base |-> base, x |-> x, y |-> y, imm |-> imm, w |-> w]

Plain(mn, word)       == Form(mn, <<>>, word, 0, 0, 0, 0)
RegReg(mn, word)      == Form(mn, <<"gpr", "gpr">>, word, 1, 2, 0, 0)
RegImm(mn, word)      == Form(mn, <<"gpr", "imm">>, word, 1, 0, 2, 8)
OneReg(mn, word)      == Form(mn, <<"gpr">>, word, 1, 0, 0, 0)

(* Words are decimal because TLA+ has no hexadecimal literals; the usual   *)
(* spelling of each encoding is given on the right.                        *)
Forms == {
  Plain("nop",     0),                                     \* 0000
  Plain("cls",     224),                                   \* 00E0
  Plain("ret",     238),                                   \* 00EE
  Form ("ld", <<"i", "ind">>, 248, 0, 0, 0, 0),            \* 00F8
  Plain("trapret", 249),                                   \* 00F9
  Plain("trap",    250),                                   \* 00FA
  Form ("jp",   <<"imm">>,       4096,  0, 0, 1, 12),      \* 1nnn
  Form ("call", <<"imm">>,       8192,  0, 0, 1, 12),      \* 2nnn
  RegImm("se",   12288),                                   \* 3xnn
  RegImm("sne",  16384),                                   \* 4xnn
  RegReg("se",   20480),                                   \* 5xy0
  RegImm("ld",   24576),                                   \* 6xnn
  RegImm("add",  28672),                                   \* 7xnn
  RegReg("ld",   32768),                                   \* 8xy0
  RegReg("or",   32769),                                   \* 8xy1
  RegReg("and",  32770),                                   \* 8xy2
  RegReg("xor",  32771),                                   \* 8xy3
  RegReg("add",  32772),                                   \* 8xy4
  RegReg("sub",  32773),                                   \* 8xy5
  OneReg("shr",  32774),                                   \* 8x06
  RegReg("subn", 32775),                                   \* 8xy7
  OneReg("shl",  32782),                                   \* 8x0E
  RegReg("sne",  36864),                                   \* 9xy0
  Form ("ld",   <<"i", "imm">>,  40960, 0, 0, 2, 12),      \* Annn
  Form ("jp",   <<"v0", "imm">>, 45056, 0, 0, 2, 12),      \* Bnnn
  RegImm("rnd",  49152),                                   \* Cxnn
  Form ("drw",  <<"gpr", "gpr", "imm">>, 53248, 1, 2, 3, 4), \* Dxyn
  OneReg("skp",  57502),                                   \* Ex9E
  OneReg("sknp", 57505),                                   \* ExA1
  Form ("ld",   <<"gpr", "dt">>,  61447, 1, 0, 0, 0),      \* Fx07
  Form ("ld",   <<"gpr", "k">>,   61450, 1, 0, 0, 0),      \* Fx0A
  Form ("ld",   <<"dt", "gpr">>,  61461, 2, 0, 0, 0),      \* Fx15
  Form ("ld",   <<"st", "gpr">>,  61464, 2, 0, 0, 0),      \* Fx18
  Form ("add",  <<"i", "gpr">>,   61470, 2, 0, 0, 0),      \* Fx1E
  Form ("ld",   <<"f", "gpr">>,   61481, 2, 0, 0, 0),      \* Fx29
  Form ("ld",   <<"b", "gpr">>,   61491, 2, 0, 0, 0),      \* Fx33
  Form ("ld",   <<"ind", "gpr">>, 61525, 2, 0, 0, 0),      \* Fx55
  Form ("ld",   <<"gpr", "ind">>, 61541, 1, 0, 0, 0)       \* Fx65
}

Mnemonics == {f.mn : f \in Forms}
FormsOf   == [m \in Mnemonics |-> {f \in Forms : f.mn = m}]

Fits(kind, op) ==
  CASE kind = "imm" -> op.k \in {"num", "id"}
    [] kind = "v0"  -> op.k = "gpr" /\ op.v = 0
    [] OTHER        -> op.k = kind

Accepts(f, ops) == Len(f.kinds) = Len(ops) /\ \A n \in 1..Len(ops) : Fits(f.kinds[n], ops[n])

Matching(mn, ops) == IF mn \in Mnemonics THEN {f \in FormsOf[mn] : Accepts(f, ops)} ELSE {}

Limit(w) == CASE w = 4 -> 15 [] w = 8 -> 255 [] w = 12 -> 4095

(* The word of form f with register operands taken from ops and the        *)
(* immediate (already resolved) given by imm.                              *)
Word(f, ops, imm) ==
  f.base + (IF f.x = 0 THEN 0 ELSE 256 * ops[f.x].v)
         + (IF f.y = 0 THEN 0 ELSE 16 * ops[f.y].v)
         + (IF f.imm = 0 THEN 0 ELSE imm)

BigEndian(word) == <<word \div 256, word % 256>>

(***************************************************************************)
(* Operands and their spellings.                                           *)
(***************************************************************************)
Gpr(n)  == [k |-> "gpr", v |-> n, txt |-> ""]
Num(n)  == [k |-> "num", v |-> n, txt |-> ""]
Reg(k)  == [k |-> k, v |-> 0, txt |-> ""]
Name(t) == [k |-> "id", v |-> 0, txt |-> t]

(* What an identifier means as an operand; low is its lower-case form. *)
Operand(txt, low) ==
  CASE low = "dt" -> Reg("dt") [] low = "st" -> Reg("st") [] low = "i" -> Reg("i")
    [] low = "[i]" -> Reg("ind") [] low = "k" -> Reg("k") [] low = "b" -> Reg("b")
    [] low = "f" -> Reg("f")
    [] OTHER -> IF \E d \in 0..15 : low = "v" \o LoHex[d + 1]
                THEN Gpr(CHOOSE d \in 0..15 : low = "v" \o LoHex[d + 1])
                ELSE Name(txt)

(* How diagnostics describe an operand. *)
Describe(op) ==
  CASE op.k = "num" -> "literal:$" \o HexL(op.v)
    [] op.k = "gpr" -> "register:" \o HexL(op.v)
    [] op.k = "dt"  -> "register:delay-timer"
    [] op.k = "st"  -> "register:sound-timer"
    [] op.k = "k"   -> "register:keypad"
    [] op.k = "i"   -> "register:index"
    [] op.k = "ind" -> "register-indirect:[index]"
    [] op.k = "id"  -> "identifier:" \o op.txt
    [] op.k = "b"   -> "bcd"
    [] op.k = "f"   -> "sprite"

(***************************************************************************)
(* Disassembly.  A word that no form produces decodes to nop, and the y    *)
(* nibble of the shifts is not significant.                                *)
(***************************************************************************)
Nib(w, n) == (w \div (CASE n = 3 -> 4096 [] n = 2 -> 256 [] n = 1 -> 16 [] n = 0 -> 1)) % 16

(* The operands form f would need to produce word w. *)
OperandsFor(f, w) ==
  [n \in 1..Len(f.kinds) |->
     CASE f.kinds[n] = "gpr" -> Gpr(IF f.x = n THEN Nib(w, 2) ELSE Nib(w, 1))
       [] f.kinds[n] = "v0"  -> Gpr(0)
       [] f.kinds[n] = "imm" -> Num(w % (Limit(f.w) + 1))
       [] OTHER              -> Reg(f.kinds[n])]

Canon(w) == IF Nib(w, 3) = 8 /\ Nib(w, 0) \in {6, 14} THEN w - 16 * Nib(w, 1) ELSE w

Produces(f, w) ==
  LET ops == OperandsFor(f, w)
  IN Word(f, ops, IF f.imm = 0 THEN 0 ELSE ops[f.imm].v) = Canon(w)

(* Operands never reach the top nibble of a word. *)
ByNibble == [n \in 0..15 |-> {f \in Forms : f.base \div 4096 = n}]
FormsFor(w) == {f \in ByNibble[Nib(w, 3)] : Produces(f, w)}

Nop == Plain("nop", 0)

Decode(w) == LET fs == FormsFor(w)
                 f  == IF fs = {} THEN Nop ELSE CHOOSE g \in fs : TRUE
             IN [f |-> f, ops |-> OperandsFor(f, w)]

(* The canonical word a decoded instruction assembles to. *)
Canonical(w) == LET d == Decode(w) IN
                Word(d.f, d.ops, IF d.f.imm = 0 THEN 0 ELSE d.ops[d.f.imm].v)

HexPad(n, w) == CASE w = 4  -> LoHex[n + 1]
                  [] w = 8  -> LoHex[n \div 16 + 1] \o LoHex[(n % 16) + 1]
                  [] w = 12 -> LoHex[n \div 256 + 1] \o LoHex[((n \div 16) % 16) + 1] \o LoHex[(n % 16) + 1]

Render(w) ==
  LET d == Decode(w)
      Show(n) == LET op == d.ops[n] IN
        CASE op.k = "gpr" -> "v" \o LoHex[op.v + 1]
          [] op.k = "num" -> "$" \o HexPad(op.v, d.f.w)
          [] op.k = "ind" -> "[i]"
          [] OTHER        -> op.k
      args == [n \in 1..Len(d.ops) |-> Show(n)]
  IN IF args = <<>> THEN d.f.mn ELSE d.f.mn \o " " \o Join(args, ", ")
=============================================================================
