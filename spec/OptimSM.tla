------------------------------ MODULE OptimSM ------------------------------
(* C09, C10, C11.  State: named optimizers (s.o) and named pairs of         *)
(* weights and biases (s.p), which change only by updates.                  *)
EXTENDS Optim, Updates, Clauses

OptimStart == [o |-> [x \in {} |-> 0], p |-> [x \in {} |-> 0]]
OWith(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
OTol == NLit("1e-10")
PropOf(kind) == IF kind = "sgd" THEN "C09" ELSE "C10"

UpdateOK(o, p, e) ==
  LET n == OptNext(o, e.dw, e.db)
      D == Deltas(o, n, e.dw, e.db)
  IN  /\ MCloseS(e.W, MSub(p.W, D.w), OTol, MAdd(MAbs(p.W), D.sw))
      /\ MCloseS(e.B, MSub(p.B, D.b), OTol, MAdd(MAbs(p.B), D.sb))
Wanted(o, p, e) == MSub(p.W, Deltas(o, OptNext(o, e.dw, e.db), e.dw, e.db).w)

Valid(o, p, e) == GradsFit(p.W, p.B, e.dw, e.db) /\ StateFits(o, p.W, p.B)

\* k updates with zero gradients, by an optimizer that moves nothing on its own account
IdleNext(o, p, k) ==
  IF KeepsState(o) \/ o.kind = "adam"
  THEN [o EXCEPT !.t = @ + k, !.mw = OrZero(@, p.W), !.mb = OrZero(@, p.B), !.aw = OrZero(@, p.W), !.ab = OrZero(@, p.B),
          !.vw = IF o.kind = "adam" THEN OrZero(@, p.W) ELSE @, !.vb = IF o.kind = "adam" THEN OrZero(@, p.B) ELSE @]
  ELSE [o EXCEPT !.t = @ + k]
AtRest(o) == \A M \in {o.mw, o.mb} : \A i \in 1 .. M.r : \A j \in 1 .. M.c : NEq(M.m[i][j], N0)

OptimAccept(s, e) ==
  CASE e.op = "newopt" ->
         IF NewOptValid(e.kind, e.h.rate, e.h.decay, e.h.mom) THEN IsOk(e, PropOf(e.kind)) ELSE IsErr(e, PropOf(e.kind))
    [] e.op = "bycode" ->
         LET q == IF e.code = 1 THEN "C10" ELSE "C09"
         IN  IF e.code \in {0, 1} THEN IsOk(e, q) /\ ClauseX(e, q, "not the kind of this code", e.kind = (IF e.code = 0 THEN "sgd" ELSE "adam"), e.code)
             ELSE IsErr(e, "C09") /\ IsErr(e, "C10")
    [] e.op \in {"params", "mut"} -> TRUE
    [] e.op = "idle" ->
         LET q == PropOf(s.o[e.o].kind)
         IN  /\ Assert(AtRest(s.o[e.o]), "not at rest")
             /\ IsOk(e, q)
             /\ Clause(e, q, "zero gradients moved something", e.st = "ok" => MSame0(e.W, s.p[e.p].W) /\ MSame0(e.B, s.p[e.p].B))
    [] e.op = "fresh" -> TRUE  \* optimizers that Finalize made
    [] e.op = "upd" ->
         LET o == s.o[e.o]
             p == s.p[e.p]
             q == PropOf(o.kind)
         IN  IF Valid(o, p, e)
             THEN /\ IsOk(e, q) /\ IsOk(e, "C11")
                  /\ ClauseX(e, q, "not the update rule", e.st = "ok" => UpdateOK(o, p, e), Wanted(o, p, e))
                  /\ ClauseX(e, "C11", "not what this optimizer's own accepted updates lead to", e.st = "ok" => UpdateOK(o, p, e), Wanted(o, p, e))
                  /\ ChangesOnly(e, q, {e.p \o ".W", e.p \o ".B"})
                  /\ ChangesOnly(e, "C11", {e.p \o ".W", e.p \o ".B"})
             ELSE IsErr(e, "C11") /\ NoChange(e, "C11")

OptimPost(s, e) ==
  CASE e.op = "newopt" -> IF e.st = "ok" THEN [s EXCEPT !.o = OWith(s.o, e.o, Optimizer(e.kind, e.h))] ELSE s
    [] e.op = "fresh" -> [s EXCEPT !.o = [x \in DOMAIN s.o \cup SeqRange(e.os) |-> IF x \in SeqRange(e.os) THEN Optimizer(e.kind, e.h) ELSE s.o[x]]]
    [] e.op = "params" -> [s EXCEPT !.p = OWith(s.p, e.p, [W |-> e.W, B |-> e.B])]
    [] e.op = "upd" -> UpdateOf(s, e, Valid, LAMBDA o, u : OptNext(o, u.dw, u.db))
    [] e.op = "idle" ->
         IF e.st = "ok" THEN [s EXCEPT !.o[e.o] = IdleNext(@, s.p[e.p], e.k), !.p[e.p] = [W |-> e.W, B |-> e.B]] ELSE s
    [] OTHER -> s
=============================================================================
