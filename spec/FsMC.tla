------------------------------- MODULE FsMC -------------------------------
(***************************************************************************)
(* Every pair and triple of runs, in sequence and at the same time, over a *)
(* small tree with a link and a file that does not exist yet.              *)
(***************************************************************************)
EXTENDS Fs

Image == [A |-> "IA", B |-> "IB", X |-> "reject"]
Tree0 == [a |-> "A", b |-> "B", x |-> "X", o |-> "A", h |-> "A"]      \* o and h are one file
Outs == {<<>>, <<"o", "h">>, <<"n">>, <<"a">>}
Cmds == {[mode |-> "assemble", killed |-> k, in |-> i, stdout |-> FALSE, changes |-> c] : i \in {"a", "b", "x", "o", "n"}, c \in Outs, k \in BOOLEAN}
        \cup {[mode |-> "assemble", killed |-> FALSE, in |-> i, stdout |-> TRUE, changes |-> <<>>] : i \in {"a", "x"}}
        \cup {[mode |-> m, killed |-> FALSE, in |-> "", stdout |-> FALSE, changes |-> <<>>] : m \in {"show", "refuse"}}
Init == /\ \E n \in 2..3, t \in BOOLEAN : \E c \in [1..n -> Cmds] :
             /\ world = [image |-> Image, together |-> t, cmds |-> c]
             /\ n = 3 => \A k \in 1..n : c[k].mode = "assemble" /\ ~c[k].stdout /\ c[k].in \in {"a", "x", "o"} /\ (c[k].killed => k = 1)
        /\ fs = Tree0 /\ FsInit
Spec == Init /\ [][FsNext]_fsvars /\ WF_fsvars(FsNext)

(* Runs that have nothing to do with each other end as if each were alone. *)
Apart(r) == \A s \in Runs \ {r} : Changes(r) \cap Changes(s) = {} /\ Cmd(r).in \notin Changes(s)
Alone == \A r \in Runs : (Apart(r) /\ exit[r] = 0 /\ Cmd(r).mode = "assemble") =>
            /\ Cmd(r).in \in DOMAIN Tree0
            /\ ~Cmd(r).stdout => \A e \in Changes(r) : fs[e] = Image[Tree0[Cmd(r).in]]
            /\ Cmd(r).stdout => said[r] = Image[Tree0[Cmd(r).in]]
Linked == fs["o"] = fs["h"]
(* A run that was not killed is right whatever happened to earlier ones. *)
After == \A r \in Runs : (~world.together /\ exit[r] = 0 /\ ~Cmd(r).stdout /\ Cmd(r).mode = "assemble" /\ \A s \in Runs : s > r => exit[s] = -1)
                         => \A e \in Changes(r) : fs[e] = val[r]
Ends == <>AllDone
=============================================================================
