------------------------------ MODULE IoTrace ------------------------------
(***************************************************************************)
(* Recorded runs: the calls the implementation made, the answers it got,   *)
(* its exit status and what was left at the destination.  A recording is   *)
(* accepted if it is a behaviour of Io; otherwise the first call Io does   *)
(* not allow is reported.                                                  *)
(***************************************************************************)
EXTENDS Io, Json, IOUtils
Cases == JsonDeserialize(IOEnv.C8S_BATCH).cases
VARIABLES c, k, stuck
vars == <<iovars, c, k, stuck>>

Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ stuck = ""
        /\ IoInit /\ text = Cases[c].text /\ to = Cases[c].to

Event == Cases[c].events[k]
More  == k <= Len(Cases[c].events)

Allowed ==
  CASE Event.op = "open"   -> Open(Event.res)
    [] Event.op = "read"   -> Read(Event.res)
    [] Event.op = "create" -> Create(Event.res)
    [] Event.op = "write"  -> Write(Event.res)
    [] Event.op = "say"    -> Say
    [] Event.op = "exit"   -> Exit(Event.code)
    [] OTHER               -> FALSE

Take == stuck = "" /\ More /\ Allowed /\ k' = k + 1 /\ UNCHANGED <<c, stuck>>
Stop == /\ stuck = "" /\ More /\ ~ENABLED Allowed
        /\ stuck' = Event.op /\ UNCHANGED <<iovars, c, k>>
(* What was found at the destination afterwards. *)
Found == LET d == Cases[c].dest IN
  \/ exit = 0 /\ d = "new"
  \/ exit > 0 /\ why \in {"open", "read", "text", "create"} /\ d = "old"
  \/ exit > 0 /\ why = "write"
Final == stuck = "" /\ ~More /\ (ph # "done" \/ ~Found)
         /\ stuck' = (IF ph # "done" THEN "unfinished" ELSE "destination") /\ UNCHANGED <<iovars, c, k>>
Next == Take \/ Stop \/ Final
Spec == Init /\ [][Next]_vars

Judge == /\ stuck # "" => PrintT("DIFFER " \o ToString(c) \o " {\"" \o stuck \o "\"} at " \o ToString(k) \o " ph=" \o ph \o " why=" \o why)
         /\ (stuck = "" /\ ~More /\ ph = "done" /\ Found) => PrintT("AGREE " \o ToString(c))
=============================================================================
