------------------------------ MODULE FsTrace ------------------------------
(***************************************************************************)
(* Recorded runs in real directories: for each run its exit status, what   *)
(* it printed and what the tree held afterwards (for runs at the same      *)
(* time, what it held after all of them).  A recording is accepted if it   *)
(* is a behaviour of Fs; otherwise the first run that is not is reported.  *)
(***************************************************************************)
EXTENDS Fs, Json, IOUtils
Cases == JsonDeserialize(IOEnv.C8S_BATCH).cases
VARIABLES c, stuck
vars == <<fsvars, c, stuck>>

Init == /\ c \in 1..Len(Cases) /\ stuck = <<>>
        /\ world = [image |-> Cases[c].image, together |-> Cases[c].together, cmds |-> Cases[c].cmds]
        /\ fs = Cases[c].before /\ FsInit

(* What is wrong with run r, which has just ended. *)
Entries(f) == DOMAIN f
Wrong(r) ==
  LET s == Cases[c].seen[r]
      after == s.tree
  IN (IF exit'[r] = s.exit THEN {} ELSE {"exit"})
     \cup (IF said'[r] \in {s.said, "anything"} THEN {} ELSE {"printed"})
     \cup (IF world.together /\ \E n \in Runs : ph'[n] # "done" THEN {}
           ELSE {e \in Entries(fs') \cup Entries(after) :
                   ~(e \in Entries(fs') /\ e \in Entries(after) /\ fs'[e] = after[e])})
Step == /\ stuck = <<>> /\ FsNext /\ c' = c
        /\ LET ended == {r \in Runs : ph[r] # "done" /\ ph'[r] = "done"}
               r == CHOOSE x \in ended : TRUE
           IN stuck' = IF ended = {} \/ Wrong(r) = {} THEN <<>> ELSE <<r, Wrong(r)>>
Spec == Init /\ [][Step]_vars

(* A killed run has several possible outcomes: the recording has to show one. *)
Judge == /\ stuck # <<>> => PrintT("DIFFER " \o ToString(c) \o " " \o ToString(stuck[2]) \o " run " \o ToString(stuck[1]))
         /\ (stuck = <<>> /\ AllDone) => PrintT("AGREE " \o ToString(c))
=============================================================================
