------------------------------- MODULE Sinks --------------------------------
(* C28.  The sink that is in force, and what a call that sets it up makes    *)
(* of it.  kind: "none", "stdout", "file" (name), "lost" (a full device).    *)
EXTENDS Integers, Sequences

LogStart == [kind |-> "none", name |-> "", both |-> FALSE]
Opens(c) == ~c.file \/ c.where \in {"plain", "full"}
SinkOf(c) ==
  IF c.file THEN [kind |-> IF c.where = "full" THEN "lost" ELSE "file", name |-> c.name, both |-> c.verbose]
  ELSE [kind |-> IF c.verbose THEN "stdout" ELSE "none", name |-> "", both |-> FALSE]
AfterInit(s, c) == IF Opens(c) THEN SinkOf(c) ELSE s
\* where a message goes
To(s) == CASE s.kind = "file" -> <<"file", s.name>> [] s.kind = "stdout" -> <<"stdout">> [] OTHER -> <<>>
Said(got, s, m) == IF To(s) \in DOMAIN got THEN [got EXCEPT ![To(s)] = Append(@, m)] ELSE got
=============================================================================
