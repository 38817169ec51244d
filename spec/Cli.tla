-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: a machine that takes the arguments one at a time and  *)
(* settles on what the run is to do.  Arguments are sequences of code      *)
(* points.  Words may be combined freely; the driver replays every vector  *)
(* against the implementation, in a directory of its own, and compares.    *)
(***************************************************************************)
EXTENDS Chars, Json, IOUtils

Plan  == JsonDeserialize(IOEnv.C8S_PLAN)
Words == Plan.words                 \* the alphabet, as code points

VARIABLES vec,      \* the argument vector, as indices into Words
          k,        \* next argument
          free,     \* operands so far (indices of arguments)
          outs,     \* values of -o so far
          helps, versions,   \* how often -h, -v were given
          mode,     \* "args" "help" "version" "usage" "error" "assemble"
          msg       \* of an error
vars == <<vec, k, free, outs, helps, versions, mode, msg>>

MINUS == 45
EQUALS == 61
Arg(n) == Words[vec[n]]
More == k <= Len(vec)

Init == /\ \/ \E n \in 0..Plan.maxlen : vec \in [1..n -> 1..Plan.base]
           \/ \E n \in 1..Len(Plan.vectors) : vec = Plan.vectors[n]
        /\ k = 1 /\ free = <<>> /\ outs = <<>> /\ helps = 0 /\ versions = 0
        /\ mode = "args" /\ msg = ""

IsOption(a) == Len(a) > 1 /\ a[1] = MINUS
Text(a, x, y) == SubSeq(a, x, y)

Bad(m) == mode' = "error" /\ msg' = m /\ UNCHANGED <<vec, k, free, outs, helps, versions>>

Operand == /\ mode = "args" /\ More /\ ~IsOption(Arg(k))
           /\ free' = Append(free, Arg(k)) /\ k' = k + 1
           /\ UNCHANGED <<vec, outs, helps, versions, mode, msg>>

Dashes == /\ mode = "args" /\ More /\ Arg(k) = <<MINUS, MINUS>>
          /\ free' = free \o [n \in 1..(Len(vec) - k) |-> Arg(k + n)] /\ k' = Len(vec) + 1
          /\ UNCHANGED <<vec, outs, helps, versions, mode, msg>>

O == 111  H == 104  V == 118
output == <<111, 117, 116, 112, 117, 116>>
help == <<104, 101, 108, 112>>
version == <<118, 101, 114, 115, 105, 111, 110>>
Which(name) == IF name \in {<<O>>, output} THEN "o" ELSE IF name \in {<<H>>, help} THEN "h"
               ELSE IF name \in {<<V>>, version} THEN "v" ELSE "?"

(* The value of -o: attached, or the next argument whatever it looks like. *)
TakeValue(name, attached, val) ==
  IF attached THEN /\ outs' = Append(outs, val) /\ k' = k + 1
                   /\ UNCHANGED <<vec, free, helps, versions, mode, msg>>
  ELSE IF k < Len(vec) THEN /\ outs' = Append(outs, Arg(k + 1)) /\ k' = k + 2
                            /\ UNCHANGED <<vec, free, helps, versions, mode, msg>>
  ELSE Bad("Argument to option '" \o Spell(name, 1, Len(name)) \o "' missing")

Long == /\ mode = "args" /\ More /\ Len(Arg(k)) > 2 /\ Arg(k)[1] = MINUS /\ Arg(k)[2] = MINUS
        /\ LET a == Arg(k)
               e == SeekChar(a, 3, EQUALS)          \* Len + 1 if there is none
               name == Text(a, 3, e - 1)
               attached == e <= Len(a)
               val == Text(a, e + 1, Len(a))
           IN CASE Which(name) = "?" -> Bad("Unrecognized option: '" \o Spell(name, 1, Len(name)) \o "'")
                [] Which(name) = "o" -> TakeValue(name, attached, val)
                [] OTHER -> IF attached THEN Bad("Option '" \o Spell(name, 1, Len(name)) \o "' does not take an argument")
                            ELSE /\ helps' = helps + (IF Which(name) = "h" THEN 1 ELSE 0)
                                 /\ versions' = versions + (IF Which(name) = "v" THEN 1 ELSE 0)
                                 /\ k' = k + 1 /\ UNCHANGED <<vec, free, outs, mode, msg>>

(* A cluster of one-letter options; o takes the rest of it as its value. *)
Short == /\ mode = "args" /\ More /\ IsOption(Arg(k)) /\ Arg(k)[2] # MINUS
         /\ LET a == Arg(k)
                stops == {n \in 2..Len(a) : a[n] \notin {H, V}}
                n == IF stops = {} THEN Len(a) + 1 ELSE CHOOSE x \in stops : \A y \in stops : x <= y
                count(c) == Cardinality({x \in 2..(n - 1) : a[x] = c})
            IN IF n <= Len(a) /\ a[n] # O THEN Bad("Unrecognized option: '" \o CharStr(a[n]) \o "'")
               ELSE IF n <= Len(a) /\ n = Len(a) /\ k = Len(vec) THEN Bad("Argument to option 'o' missing")
               ELSE /\ helps' = helps + count(H) /\ versions' = versions + count(V)
                    /\ IF n > Len(a) THEN outs' = outs /\ k' = k + 1
                       ELSE IF n < Len(a) THEN outs' = Append(outs, Text(a, n + 1, Len(a))) /\ k' = k + 1
                       ELSE outs' = Append(outs, Arg(k + 1)) /\ k' = k + 2
                    /\ UNCHANGED <<vec, free, mode, msg>>

Settle == /\ mode = "args" /\ ~More
          /\ CASE Len(outs) > 1 -> Bad("Option 'output' given more than once")
               [] Len(outs) <= 1 /\ helps > 1 -> Bad("Option 'help' given more than once")
               [] Len(outs) <= 1 /\ helps <= 1 /\ versions > 1 -> Bad("Option 'version' given more than once")
               [] OTHER -> /\ mode' = (IF helps > 0 THEN "help" ELSE IF versions > 0 THEN "version"
                                       ELSE IF Len(free) # 1 THEN "usage" ELSE "assemble")
                           /\ UNCHANGED <<vec, k, free, outs, helps, versions, msg>>

Next == Operand \/ Dashes \/ Long \/ Short \/ Settle
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

Done == mode # "args"
Output == IF outs = <<>> THEN <<97, 46, 104, 101, 120>> ELSE outs[1]

(* Exactly one of the actions applies to any argument vector. *)
Unique == mode = "args" => Cardinality({n \in 1..5 :
            CASE n = 1 -> ENABLED Operand [] n = 2 -> ENABLED Dashes [] n = 3 -> ENABLED Long
              [] n = 4 -> ENABLED Short [] OTHER -> ENABLED Settle}) = 1
One == mode = "assemble" => Len(free) = 1 /\ Len(outs) <= 1 /\ helps = 0 /\ versions = 0
Kept == Len(free) + Len(outs) + helps + versions > 0 => Len(vec) > 0
Settles == <>Done
Emit == Done => PrintT("ARGS " \o ToJson([v |-> vec, m |-> mode, e |-> msg,
                          i |-> IF mode = "assemble" THEN free[1] ELSE <<>>,
                          o |-> IF mode = "assemble" THEN Output ELSE <<>>]))
=============================================================================
