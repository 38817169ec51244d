-------------------------------- MODULE IoMC --------------------------------
(***************************************************************************)
(* Every way the operating system may answer, within a budget of           *)
(* interruptions and partial transfers per kind of call.  The history of   *)
(* answers is printed as a plan to be replayed against the implementation. *)
(***************************************************************************)
EXTENDS Io, Json
CONSTANTS Budget
VARIABLES hist, left
vars == <<iovars, hist, left>>

Init == IoInit /\ hist = <<>> /\ left = [o |-> 1, r |-> Budget, p |-> Budget, c |-> 1, w |-> Budget, q |-> Budget]

(* Only reads and writes are long calls; opening is interrupted once. *)
Spend(k) == left[k] > 0 /\ left' = [left EXCEPT ![k] = @ - 1]
Log(op, r) == hist' = Append(hist, <<op, r>>)

DoOpen   == ph = "start" /\ \E r \in {"ok", "eintr", "err"} :
              /\ Open(r) /\ Log("open", r) /\ IF r = "eintr" THEN Spend("o") ELSE left' = left
DoRead   == ph = "reading" /\ \E r \in {"some", "eintr", "err", "eof"} :
              /\ Read(r) /\ Log("read", r)
              /\ IF r = "eintr" THEN Spend("r") ELSE IF r = "some" THEN Spend("p") ELSE left' = left
DoCreate == \E r \in {"ok", "eintr", "err"} :
              /\ Create(r) /\ Log("create", r) /\ IF r = "eintr" THEN Spend("c") ELSE left' = left
DoWrite  == \E r \in {"ok", "some", "eintr", "err"} :
              /\ Write(r) /\ Log("write", r)
              /\ IF r = "eintr" THEN Spend("w") ELSE IF r = "some" THEN Spend("q") ELSE left' = left
DoExit   == \E c \in {0, 1} : Exit(c) /\ UNCHANGED <<hist, left>>
Next == DoOpen \/ DoRead \/ DoCreate \/ DoWrite \/ DoExit
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

Emit == ph = "done" => PrintT("PLAN " \o ToJson([text |-> text, to |-> to, hist |-> hist, x |-> exit]))
Ends == <>(ph = "done")
(* Once interrupted or served in part, the program still gets to the end  *)
(* unless something else fails.                                           *)
CarriesOn == [](ph = "done" /\ why = "none" => sent = "all")
=============================================================================
