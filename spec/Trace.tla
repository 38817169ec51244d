------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: every case is one recorded run of the implementation, with *)
(* its input text and everything it was observed to do.  The specification *)
(* is run on the same text, and where it stops the two are compared.  The  *)
(* comparison names each aspect in which they differ.                      *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Batch == JsonDeserialize(IOEnv.C8S_BATCH)
Cases == Batch.cases

TraceInit == \E n \in 1..Len(Cases) : InitFor(n, Cases[n].src)

Lines(ls) == IF ls = <<>> THEN "" ELSE Join(ls, "{10}") \o "{10}"

Obs == Cases[inp]

(* The names the run was given, for the constants of C8s. *)
ObsFile(n)    == Cases[n].name
ObsProgram(n) == Cases[n].prog

(* A verdict of some kind: success with a complete output, or failure with *)
(* exit status 1 and a diagnostic.                                         *)
HasVerdict ==
         \/ Obs.exit = 0 /\ Obs.file = "new" /\ Obs.hexok
         \/ Obs.exit = 1 /\ Obs.out # ""

Same   == Obs.hexok /\ Obs.recs = recs
Loads  == Obs.hexok /\ WellFormed(Obs.recs)

(* The same records, in whatever order of sections. *)
SameSet == Obs.hexok /\ Len(Obs.recs) = Len(recs)
             /\ {Obs.recs[n] : n \in 1..Len(recs)} = {recs[n] : n \in 1..Len(recs)}

(* The pairs of sections named in an overlap report, as a bag. *)
Clashes == {<<a, b>> \in (1..Len(ranges)) \X (1..Len(ranges)) : a < b /\ Meet(ranges[a], ranges[b])}
Named(p) == {<<First(ranges[p[1]]), Last(ranges[p[1]])>>, <<First(ranges[p[2]]), Last(ranges[p[2]])>>}
Overlapped == exit = 1 /\ ranges # <<>> /\ i = 1 /\ Len(diag) > 2
ObsPair(n) == {<<Obs.pairs[n][k][1], Obs.pairs[n][k][2]>> : k \in 1..2}
SamePairs ==
  LET cs == Clashes
      ps == [c \in cs |-> Named(c)]
      os == [n \in 1..Len(Obs.pairs) |-> ObsPair(n)]
  IN /\ Cardinality(cs) = Len(Obs.pairs)
     /\ \A x \in {ps[c] : c \in cs} : Cardinality({c \in cs : ps[c] = x}) = Cardinality({n \in DOMAIN os : os[n] = x})

Differences ==
     (IF Obs.exit = exit THEN {} ELSE {"exit"})
  \cup (IF Obs.out = Lines(diag) THEN {} ELSE {"diag"})
  \cup (IF Obs.out = Lines(diag) \/ ~Overlapped \/ SamePairs THEN {} ELSE {"pairs"})
  \cup (IF HasVerdict THEN {} ELSE {"total"})
  \cup (IF exit # 0 \/ Obs.exit # 0 \/ (Obs.out = "" /\ Obs.err = "") THEN {} ELSE {"noise"})
  \cup (IF Obs.file = file THEN {} ELSE {"file"})
  \cup (IF exit # 0 \/ Same THEN {} ELSE {"recs"})
  \cup (IF exit # 0 \/ Same \/ SameSet THEN {} ELSE {"recset"})
  \cup (IF exit # 0 \/ Same \/ (Loads /\ Unambiguous(Obs.recs)) THEN {} ELSE {"hex"})
  \cup (IF exit # 0 \/ Same \/ (Loads /\ Cells(Obs.recs) = Cells(recs)) THEN {} ELSE {"image"})

Judge ==
  Done /\ exit # -1 =>
    IF Differences = {} THEN PrintT("AGREE " \o ToString(inp))
    ELSE PrintT("DIFFER " \o ToString(inp) \o " " \o ToString(<<Differences, exit, diag, recs>>))

(* The promises are quadratic in the size of the program; large programs   *)
(* are compared with the implementation but not re-examined here.          *)
SmallPromises == Len(nodes) <= 40 => Promises

TraceNext == Next \/ (Done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceView == <<inp, ph, pm, sc.p, cur.k, nxt.k, i, addr, Len(recs), Len(nodes), Len(part.args)>>
=============================================================================
