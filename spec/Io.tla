--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* The assembler and the operating system.  The system may answer every    *)
(* call with less than was asked for, with an interruption, or with a      *)
(* failure; the program decides what to call next.  What the text means is *)
(* the business of C8s.tla: here a text is merely good or bad.             *)
(*                                                                         *)
(* Answers: "ok" "eintr" "err", for reads also "some" (part of what is     *)
(* left) and "eof", for writes "some" and "ok" (all of what is left).      *)
(* Only the order of calls that matters to a user is fixed: the input is   *)
(* read to its end before the destination is opened, the destination gets  *)
(* the output's bytes in order, and the exit status is the truth.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES text,      \* "good" or "bad": what the text, completely read, is
          to,        \* destination: "file" or "stdout"
          ph,        \* "start" "reading" "ready" "writing" "failed" "done"
          why,       \* what failed: "none" "open" "read" "text" "create" "write"
          sent,      \* "none" "part" "all": bytes of the output accepted by the destination
          dest,      \* the destination: "old" "cut" (truncated or partly written) "new"
          exit       \* -1 while running

iovars == <<text, to, ph, why, sent, dest, exit>>

IoInit == /\ text \in {"good", "bad"} /\ to \in {"file", "stdout"}
          /\ ph = "start" /\ why = "none" /\ sent = "none" /\ dest = "old" /\ exit = -1

Fail(w) == ph' = "failed" /\ why' = w

Open(r) ==      \* of the input, for reading
  /\ ph \in {"start", "reading"}
  /\ CASE r = "ok"    -> ph' = "reading" /\ why' = why
       [] r = "eintr" -> UNCHANGED <<ph, why>>
       [] r = "err"   -> Fail("open")
  /\ UNCHANGED <<text, to, sent, dest, exit>>

Read(r) ==
  /\ ph \in {"reading", "ready"} \/ (ph = "failed" /\ why = "text")
  /\ IF ph # "reading" THEN r = "eof" /\ UNCHANGED <<ph, why>>
     ELSE CASE r = "some"  -> UNCHANGED <<ph, why>>
            [] r = "eintr" -> UNCHANGED <<ph, why>>
            [] r = "err"   -> Fail("read")
            [] r = "eof"   -> IF text = "bad" THEN Fail("text") ELSE ph' = "ready" /\ why' = why
  /\ UNCHANGED <<text, to, sent, dest, exit>>

Create(r) ==    \* the destination, truncating it
  /\ ph = "ready" /\ to = "file"
  /\ CASE r = "ok"    -> ph' = "writing" /\ why' = why /\ dest' = "cut"
       [] r = "eintr" -> UNCHANGED <<ph, why, dest>>
       [] r = "err"   -> Fail("create") /\ dest' = dest
  /\ UNCHANGED <<text, to, sent, exit>>

Write(r) ==     \* of the next bytes of the output
  /\ sent # "all"
  /\ ph = "writing" \/ (ph = "ready" /\ to = "stdout")
  /\ CASE r = "ok"    -> sent' = "all" /\ dest' = "new" /\ ph' = "writing" /\ why' = why
       [] r = "some"  -> sent' = "part" /\ dest' = "cut" /\ ph' = "writing" /\ why' = why
       [] r = "eintr" -> UNCHANGED <<sent, dest, ph, why>>
       [] r = "err"   -> Fail("write") /\ UNCHANGED <<sent, dest>>
  /\ UNCHANGED <<text, to, exit>>

(* A message on standard output; only a failed run has something to say. *)
Say == ph = "failed" /\ UNCHANGED iovars

Exit(c) ==
  /\ exit = -1
  /\ \/ ph = "writing" /\ sent = "all" /\ c = 0
     \/ ph = "failed" /\ c # 0
  /\ exit' = c /\ ph' = "done"
  /\ UNCHANGED <<text, to, why, sent, dest>>

---------------------------------------------------------------------------
(* What a user relies on. *)
Truth      == exit = 0 => text = "good" /\ sent = "all" /\ dest = "new" /\ why = "none"
NonZero    == why # "none" => exit # 0
NoTouch    == why \in {"open", "read", "text", "create"} => dest = "old"
ReadFirst  == dest # "old" => text = "good" /\ why \in {"none", "write"}
Needed     == exit > 0 => why # "none"          \* no failure without a cause
=============================================================================
