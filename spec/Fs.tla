--------------------------------- MODULE Fs ---------------------------------
(***************************************************************************)
(* Runs of the assembler in a directory tree, one after another or at the  *)
(* same time.  A file holds a piece of text, named by a token; what the    *)
(* text means (C8s.tla) is given as a function from tokens to tokens.  A   *)
(* run looks at its input once and settles: either it puts its output in   *)
(* place and says nothing, or it says why not and leaves everything as it  *)
(* was.  No run changes anything but what its output names.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES world,     \* fixed: image, together, cmds (see below)
          fs,        \* entry of the tree -> token of what it holds
          ph,        \* of each run: "wait" "look" "settle" "done"
          val,       \* what each run makes of its input: a token, or "reject"
          exit,      \* of each run; -1 while it runs
          said       \* what each run has put on standard output: "nothing", "message", or a token
fsvars == <<world, fs, ph, val, exit, said>>

Runs == 1..Len(world.cmds)
Cmd(r) == world.cmds[r]
(* A command: what it does ("assemble", or "show" and "refuse" for help and for  *)
(* misuse), whether it may be killed, the entry its input names ("" if none), whether its output goes to   *)
(* standard output, and the entries its output names: none if it cannot be       *)
(* opened, several if they are links to one file.                                *)
Changes(r) == {Cmd(r).changes[n] : n \in 1..Len(Cmd(r).changes)}

Begun == [n \in Runs |-> IF world.together \/ n = 1 THEN "look" ELSE "wait"]
FsInit == /\ ph = Begun
          /\ val = [n \in Runs |-> "none"] /\ exit = [n \in Runs |-> -1] /\ said = [n \in Runs |-> "nothing"]

Means(token) == IF token \in DOMAIN world.image THEN world.image[token] ELSE "reject"

Look(r) == /\ ph[r] = "look" /\ Cmd(r).mode = "assemble"
           /\ val' = [val EXCEPT ![r] = IF Cmd(r).in \in DOMAIN fs THEN Means(fs[Cmd(r).in]) ELSE "reject"]
           /\ ph' = [ph EXCEPT ![r] = "settle"]
           /\ UNCHANGED <<world, fs, exit, said>>

End(r, code, words) == /\ exit' = [exit EXCEPT ![r] = code] /\ said' = [said EXCEPT ![r] = words]
                       /\ ph' = [n \in Runs |-> IF n = r THEN "done" ELSE IF n = r + 1 /\ ph[n] = "wait" THEN "look" ELSE ph[n]]
                       /\ UNCHANGED <<world, val>>

Show(r)   == ph[r] = "look" /\ Cmd(r).mode = "show" /\ End(r, 0, "message") /\ fs' = fs
Refuse(r) == ph[r] = "look" /\ Cmd(r).mode = "refuse" /\ End(r, 1, "message") /\ fs' = fs
Reject(r) == /\ ph[r] = "settle"
             /\ val[r] = "reject" \/ (~Cmd(r).stdout /\ Changes(r) = {})
             /\ End(r, 1, "message") /\ fs' = fs
Type(r)  == ph[r] = "settle" /\ val[r] # "reject" /\ Cmd(r).stdout /\ End(r, 0, val[r]) /\ fs' = fs
Put(r)    == /\ ph[r] = "settle" /\ val[r] # "reject" /\ ~Cmd(r).stdout /\ Changes(r) # {}
             /\ End(r, 0, "nothing")
             /\ fs' = [e \in DOMAIN fs \cup Changes(r) |-> IF e \in Changes(r) THEN val[r] ELSE fs[e]]

(* A run may be killed at any point: its output is then as it was, torn, or *)
(* complete; a rejected text's is as it was.                                *)
Kill(r)   == /\ ph[r] \in {"look", "settle"} /\ Cmd(r).killed
             /\ End(r, 99, "anything")
             /\ \/ fs' = fs
                \/ /\ ph[r] = "settle" /\ val[r] # "reject" /\ ~Cmd(r).stdout /\ Changes(r) # {}
                   /\ \E t \in {"torn", val[r]} :
                        fs' = [e \in DOMAIN fs \cup Changes(r) |-> IF e \in Changes(r) THEN t ELSE fs[e]]

FsNext == \E r \in Runs : Kill(r) \/ Look(r) \/ Show(r) \/ Refuse(r) \/ Reject(r) \/ Type(r) \/ Put(r)
AllDone == \A r \in Runs : ph[r] = "done"

---------------------------------------------------------------------------
(* What a user relies on. *)
Same(e) == e \in DOMAIN fs /\ e \in DOMAIN fs' /\ fs'[e] = fs[e]
OnlyOutput == [][\A e \in DOMAIN fs \cup DOMAIN fs' :
                   Same(e) \/ \E r \in Runs : ph[r] = "settle" /\ exit'[r] \in {0, 99} /\ ~Cmd(r).stdout /\ e \in Changes(r)]_fsvars
Nothing    == [][\A r \in Runs : (exit[r] = -1 /\ exit'[r] = 1) => fs' = fs]_fsvars
NothingLost == [][DOMAIN fs \subseteq DOMAIN fs']_fsvars
Quiet      == \A r \in Runs : (exit[r] = 0 /\ Cmd(r).mode = "assemble" /\ ~Cmd(r).stdout) => said[r] = "nothing"
Spoken     == \A r \in Runs : exit[r] = 1 => said[r] = "message"
=============================================================================
