------------------------------ MODULE Clauses ------------------------------
(* Judging one recorded event.  An event is a record that the Go harness    *)
(* wrote for one call of the library: op, arguments, st (how the call       *)
(* ended: "ok", "err" or "panic"), results, chg (names of the watched       *)
(* matrices whose bits changed during the call) and chv (their new values). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Focus          \* the property that is being decided

Has(e, f) == f \in DOMAIN e
SeqRange(s) == {s[i] : i \in DOMAIN s}
Chg(e) == IF Has(e, "chg") THEN SeqRange(e.chg) ELSE {}

\* A clause of property p.  Clauses of other properties are not enforced: the
\* state is taken over from the trace, so that one wrong step is blamed on one
\* property only.  Controls (events falsified on purpose) fail silently.
Clause(e, p, name, cond) ==
  \/ p # Focus
  \/ cond
  \/ /\ ~Has(e, "ctl")
     /\ PrintT(<<"REJECT", e.t, e.i, p, e.op, name>>)
     /\ FALSE

\* As Clause, and shows what the specification expected.
ClauseX(e, p, name, cond, expected) ==
  \/ p # Focus
  \/ cond
  \/ /\ ~Has(e, "ctl")
     /\ PrintT(<<"REJECT", e.t, e.i, p, e.op, name, "expected", expected>>)
     /\ FALSE

NoChange(e, p) == Clause(e, p, "changed something it must not change", Chg(e) = {})
ChangesOnly(e, p, names) == Clause(e, p, "changed something it must not change", Chg(e) \subseteq names)
IsOk(e, p) == Clause(e, p, "failed, must succeed", e.st = "ok")
IsErr(e, p) == Clause(e, p, "accepted or crashed, must return an error", e.st = "err")
=============================================================================
