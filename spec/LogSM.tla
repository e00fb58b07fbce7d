------------------------------- MODULE LogSM -------------------------------
(* C28.  Where messages go.  State: the sink that is in force.  Of every    *)
(* call, the lines are recorded that it added to standard output, standard  *)
(* error and each file of the scratch directory, as [lvl, text].            *)
EXTENDS Sinks, Clauses

\* The lines wanted: levels and, if given, texts.
Lines(got, want) == /\ Len(got) = Len(want)
                    /\ \A i \in 1 .. Len(want) : got[i].lvl = want[i].lvl /\ (want[i].text # "" => got[i].text = want[i].text)
\* A call that failed may report errors, as many as it likes.
OnlyErrors(got) == \A i \in 1 .. Len(got) : got[i].lvl = "error"
Reported(got, e) == IF e.st = "ok" \/ e.op \in {"say", "burst"} THEN Lines(got, e.want) ELSE \A i \in 1 .. Len(got) : got[i].lvl \in {"error", "info"}

Quiet(e) == e.stdout = <<>> /\ e.stderr = <<>>
FilesOnly(e, names) == \A f \in DOMAIN e.files \ names : e.files[f].new = <<>>
Delivered(s, e) ==
  /\ e.stderr = <<>>
  /\ CASE s.kind \in {"none", "lost"} -> (e.stdout = <<>> \/ s.both) /\ FilesOnly(e, {})
       [] s.kind = "stdout" -> Reported(e.stdout, e) /\ FilesOnly(e, {})
       [] s.kind = "file" -> /\ (e.stdout = <<>> \/ (s.both /\ Reported(e.stdout, e)))
                             /\ s.name \in DOMAIN e.files
                             /\ Reported(e.files[s.name].new, e)
                             /\ FilesOnly(e, {s.name})

LogAccept(s, e) ==
  /\ Clause(e, "C28", "touched what a file held", \A f \in DOMAIN e.files : e.files[f].kept)
  /\ CASE e.op = "init" ->
            /\ IF Opens(e) THEN IsOk(e, "C28") ELSE IsErr(e, "C28")
            /\ Clause(e, "C28", "setting up logging wrote something", Quiet(e) /\ FilesOnly(e, {}))
       [] e.op = "ext" -> \* another program appended a line to e.name
            Clause(e, "C28", "wrote without a message", Quiet(e) /\ \A f \in DOMAIN e.files : Len(e.files[f].new) = IF f = e.name THEN 1 ELSE 0)
       [] e.op = "fresh" -> TRUE
       [] OTHER ->
            /\ IF e.good THEN IsOk(e, "C28") ELSE IsErr(e, "C28")
            /\ ClauseX(e, "C28", "messages did not go where they were configured to", Delivered(s, e), <<s, e.want>>)

LogPost(s, e) == IF e.op = "init" THEN AfterInit(s, e) ELSE s
=============================================================================
