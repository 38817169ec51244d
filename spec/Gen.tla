-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Exhaustive exploration: every program of up to maxlen fragments over an *)
(* alphabet, assembled by the specification with every promise checked in  *)
(* every state.  The outcome of each program is printed, and the driver    *)
(* replays the program on the implementation.                              *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Plan  == JsonDeserialize(IOEnv.C8S_PLAN)
Frags == Plan.frags            \* sequences of code points
MaxLen == Plan.maxlen

GenFile(n)    == "t.s"
GenProgram(n) == "c8s"

GenInit == /\ InitFor(<<>>, <<>>) /\ TRUE

Begin  == ph = "read" /\ src' = Plan.prefix \o src \o Plan.suffix /\ ph' = "parse"
            /\ UNCHANGED <<inp, sc, cur, nxt, pm, part, nodes, i, addr, labels, rng, ranges, recs, file, diag, exit>>

Extend(k) == /\ ph = "read" /\ Len(inp) < MaxLen
             /\ inp' = Append(inp, k) /\ src' = src \o Frags[k]
             /\ UNCHANGED <<ph, sc, cur, nxt, pm, part, nodes, i, addr, labels, rng, ranges, recs, file, diag, exit>>

Machine == (ph # "read" /\ Next)

GenNext == \/ \E k \in 1..Len(Frags) : Extend(k)
           \/ Begin
           \/ Machine
           \/ Done /\ UNCHANGED vars

GenSpec == GenInit /\ [][GenNext]_vars
FairSpec == GenSpec /\ WF_vars(Machine \/ Begin)

Tell == Done => PrintT("CASE " \o ToJson([p |-> inp, x |-> exit, d |-> diag, r |-> recs]))

(* Exactly one step is possible until the machine is done. *)
Progress == ph \notin {"read", "done"} => ENABLED Next

Terminates == <>Done

GenView == <<inp, ph, pm, sc.p, cur.k, nxt.k, i, addr, Len(recs), Len(nodes), Len(part.args)>>
=============================================================================
