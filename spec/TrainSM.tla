------------------------------ MODULE TrainSM ------------------------------
(* C15, C16, C17, C18, C19.  What a training run has learnt is determined   *)
(* by where it started (base: parameters, loss, kind of optimizer) and by   *)
(* the list of batches that its updates were made on.  State:               *)
(*   run   each run's base, batches so far, parameters, shape of the data   *)
(*         it takes, and whether it is ready to be trained                  *)
(*   par   parameters known for a base and a list of batches                *)
(*   ev    loss and accuracy known for a base, a list of batches and data   *)
(* Reference runs register par and ev by single steps made by hand; every   *)
(* run that gets to the same base and batches must agree.                   *)
EXTENDS ModelSM, Batches

TrainStart == [run |-> [x \in {} |-> 0], par |-> [x \in {} |-> 0], ev |-> [x \in {} |-> 0]]
TWith(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TTol == NLit("1e-9")

ParSame(p, q) == Len(p) = Len(q) /\ \A k \in 1 .. Len(p) : MSame(p[k].W, q[k].W) /\ MSame(p[k].B, q[k].B)
ParClose(p, q) == Len(p) = Len(q) /\ \A k \in 1 .. Len(p) : MClose1(p[k].W, q[k].W, TTol) /\ MClose1(p[k].B, q[k].B, TTol)

Key(r, more) == <<r.base, r.hist \o more>>

\* ---- which fits can run ----
FitFits(r, e) ==
  /\ r.ready
  /\ e.xr = e.yr /\ e.xr >= 1
  /\ e.xc = r.in /\ e.yc = r.out
  /\ e.b >= 0
FitSteps(r, e) == IF FitFits(r, e) THEN Steps(e.d, e.xr, e.b, e.e) ELSE <<>>

\* ---- progress lines: [epoch, val, loss, acc] ----
LinesWanted(e) ==
  LET tag == IF e.val = 0 THEN <<FALSE>> ELSE <<FALSE, TRUE>>
      RECURSIVE From(_)
      From(k) == IF k >= e.e THEN <<>> ELSE (IF k % e.log = 0 THEN [q \in 1 .. Len(tag) |-> <<k, tag[q]>>] ELSE <<>>) \o From(k + 1)
  IN  IF e.log = 0 THEN <<>> ELSE From(0)
Told(s, r, e, line) ==
  LET per == Steps(e.d, e.xr, e.b, line.epoch + 1)
      k == <<Key(r, per), IF line.val THEN e.val ELSE e.d>>
  IN  line.told = 2 /\ IF k \in DOMAIN s.ev      \* told: numbers in the line
      THEN LET v == s.ev[k] IN NClose(line.loss, v.loss, NLit("2e-6"), N1) /\ NClose(line.acc, v.acc, NLit("2e-6"), N1)
      ELSE TRUE
Known(s, r, e) == \A k \in 1 .. Len(e.lines) : <<Key(r, Steps(e.d, e.xr, e.b, e.lines[k].epoch + 1)), IF e.lines[k].val THEN e.val ELSE e.d>> \in DOMAIN s.ev

Agrees(s, e, p, key, par) ==
  ClauseX(e, p, "other parameters than from the same batches, one by one", key \in DOMAIN s.par => ParClose(par, s.par[key]), IF key \in DOMAIN s.par THEN s.par[key] ELSE "unknown")

\* ---- training with dropout: some draw of the dropped units explains it ----
\* An event has the model's layers before (lay) and after (par), plain descent with rate h.rate.
\* One training pass, with the factors F of the one dropout layer.
RECURSIVE DPass(_, _, _, _)
DPass(lay, k, X, F) ==
  IF k > Len(lay) THEN <<>>
  ELSE LET l == lay[k]
           Z == Pre(l, X)
           A == Activate(l, Z)
           Y == IF l.kind = "dropout" THEN MHad(A, F) ELSE A
       IN  <<[l |-> [l EXCEPT !.z = Z, !.f = F], x |-> X, y |-> Y]>> \o DPass(lay, k + 1, Y, F)
\* Gradients of the layers up to k, from the gradient G at the pre-activations of layer k.
RECURSIVE DGrads(_, _, _)
DGrads(ps, k, G) ==
  (IF k = 1 THEN <<>> ELSE DGrads(ps, k - 1, LayerGrad(ps[k - 1].l, GradX(ps[k].l, G))))
    \o <<[w |-> GradW(ps[k].x, G), b |-> GradB(G)]>>
DStep(lay, loss, rate, X, Y, F) ==
  LET ps == TLCEval(DPass(lay, 1, X, F))
      n == Len(lay)
      P == ps[n].y
      G0 == IF loss = "ce" /\ lay[n].kind = "softmax" THEN FusedGrad(P, Y) ELSE LayerGrad(ps[n].l, LossGrad(loss, P, Y))
      gs == TLCEval(DGrads(ps, n, G0))
  IN  TLCEval([k \in 1 .. n |-> [lay[k] EXCEPT !.W = MSub(@, MMulS(gs[k].w, rate)), !.B = MSub(@, MMulS(gs[k].b, rate))]])
Dropping(lay) == CHOOSE k \in 1 .. Len(lay) : lay[k].kind = "dropout"
DMasks(l, rows) ==
  LET keep == NDiv(N1, NSub(N1, l.par))
  IN  {Mat(rows, l.out, LAMBDA i, j : IF f[(i - 1) * l.out + j] THEN keep ELSE N0) : f \in [1 .. rows * l.out -> BOOLEAN]}
RECURSIVE DReach(_, _, _, _)
DReach(lay, e, steps, k) ==
  IF k > Len(steps) THEN ParClose(e.par, [q \in 1 .. Len(lay) |-> [W |-> lay[q].W, B |-> lay[q].B]])
  ELSE LET lo == steps[k][2]
           hi == steps[k][3]
       IN  \E F \in DMasks(lay[Dropping(lay)], hi - lo + 1) :
             DReach(DStep(lay, e.loss, e.rate, MRows(e.x, lo, hi), MRows(e.y, lo, hi), F), e, steps, k + 1)
WithCaches(lay) == [k \in 1 .. Len(lay) |-> [id |-> k, kind |-> lay[k].kind, in |-> lay[k].in, out |-> lay[k].out, par |-> lay[k].par, W |-> lay[k].W, B |-> lay[k].B, z |-> None, f |-> None]]
Drawn(e) == DReach(WithCaches(e.lay), e, Steps(1, e.x.r, e.b, e.e), 1)

\* ---- what a fit with dropout tells: the inference loss and accuracy of the final parameters ----
Final(e) ==
  [ModelStart EXCEPT !.lay = LET w == WithCaches(e.lay) IN [k \in 1 .. Len(e.lay) |-> [w[k] EXCEPT !.W = e.par[k].W, !.B = e.par[k].B]],
                     !.loss = [kind |-> e.loss, size |-> e.lay[Len(e.lay)].out, id |-> 1], !.acc = e.acc, !.prec = e.prec]
ToldFinal(e, line, X, Y) ==
  LET s == Final(e)
      T == Infer(s, X)
      t == NLit("2e-6")
      v == LossValue(e.loss, T.y, Y)
  IN  /\ line.told = 2
      /\ NClose(line.loss, v, t, N1)
      /\ NLe(NSub(AccBounds(s, T, Y, TRUE), t), line.acc) /\ NLe(line.acc, NAdd(AccBounds(s, T, Y, FALSE), t))
LastTold(e) ==
  \A k \in 1 .. Len(e.lines) :
    e.lines[k].epoch = e.e - 1 => IF e.lines[k].val THEN ToldFinal(e, e.lines[k], e.vx, e.vy) ELSE ToldFinal(e, e.lines[k], e.x, e.y)

TrainAccept(s, e) ==
  CASE e.op = "start" -> TRUE
    [] e.op = "step" -> IsOk(e, Focus)
    [] e.op = "eval" -> IsOk(e, Focus) /\ Clause(e, "C16", "an evaluation changed something", Chg(e) = {})
    [] e.op = "fit" ->
         LET r == s.run[e.run]
             key == Key(r, FitSteps(r, e))
         IN  IF FitFits(r, e)
             THEN /\ \A p \in {"C15", "C16", "C17", "C19"} : IsOk(e, p)
                  /\ IsOk(e, "C18")
                  \* a reference run has to exist for what is decided here
                  /\ Assert(key \in DOMAIN s.par, <<"no reference", e.t, e.i>>)
                  /\ \A p \in {"C15", "C16", "C17", "C19"} : Agrees(s, e, p, key, e.par)
                  /\ Clause(e, "C15", "zero epochs changed something", e.e = 0 => Chg(e) = {})
                  /\ ChangesOnly(e, "C16", SeqRange(e.mine))
                  /\ ChangesOnly(e, "C19", SeqRange(e.mine))
                  /\ Has(e, "lines") =>
                       /\ ClauseX(e, "C18", "not one line per reported epoch", [k \in 1 .. Len(e.lines) |-> <<e.lines[k].epoch, e.lines[k].val>>] = LinesWanted(e), LinesWanted(e))
                       /\ Clause(e, "C18", "not an info line", \A k \in 1 .. Len(e.lines) : e.lines[k].info)
                       /\ Assert(Focus = "C18" /\ ~Has(e, "ctl") => Known(s, r, e), <<"no reference values", e.t, e.i>>)
                       /\ \A k \in 1 .. Len(e.lines) :
                            ClauseX(e, "C18", "not the true loss and accuracy", Told(s, r, e, e.lines[k]), e.lines[k])
             ELSE /\ IsErr(e, "C17")
                  /\ Clause(e, "C17", "a refused fit changed something", Chg(e) = {})
    [] e.op = "look" ->
         \* predictions, losses, accuracies, passes, saves
         \* (whether data that does not fit is refused is C13's)
         /\ ~e.bad => IsOk(e, "C16")
         /\ Clause(e, "C16", "an observation changed something", Chg(e) = {})
    [] e.op = "addlayer" -> TRUE
    [] e.op = "drops" ->
         \* single-sample training steps through a dropout layer: units that learnt something
         LET mean == NMul(NInt(e.n), NSub(N1, e.rate))
             sd == NSqrt(NMul(mean, e.rate))
             usual == NLe(NAbs(NSub(NInt(e.k), mean)), NAdd(NLit("4"), NMul(NLit("7"), sd)))
         IN  /\ IsOk(e, "C16") /\ IsOk(e, "C19")
             /\ Clause(e, "C16", "after observations, training drops other units than without", usual)
             /\ Clause(e, "C19", "a loaded model drops other units than the saved one", usual)
    [] e.op = "dfit" ->
         /\ \A p \in {"C15", "C16", "C19"} : IsOk(e, p)
         /\ \A p \in {"C15", "C16", "C19"} : Clause(e, p, "no draw of dropped units explains what was learnt", Drawn(e))
         /\ NoChange(e, "C16")
    [] e.op = "dreport" ->
         /\ IsOk(e, "C18")
         /\ ClauseX(e, "C18", "not one line per reported epoch", [k \in 1 .. Len(e.lines) |-> <<e.lines[k].epoch, e.lines[k].val>>] = LinesWanted(e), LinesWanted(e))
         /\ ClauseX(e, "C18", "not the true loss and accuracy", LastTold(e), [loss |-> LossValue(e.loss, Infer(Final(e), e.x).y, e.y), lines |-> e.lines])
    [] e.op = "mut" -> ChangesOnly(e, "C19", SeqRange(e.mine))
    [] e.op = "loadlayer" ->
         /\ IsOk(e, "C19")
         /\ Clause(e, "C19", "saving or loading changed something", Chg(e) = {})
         /\ Clause(e, "C19", "not the saved layer", e.st = "ok" => e.desc = e.was)
         /\ Clause(e, "C19", "the layer computes something else", e.st = "ok" => MSame(e.pred, e.pwas))
    [] e.op = "load" ->
         \* more layers than the format can count may be refused when saving
         /\ IF Has(e, "deep") /\ e.deep > 127 THEN Clause(e, "C19", "saved, but cannot be loaded", e.st = "ok" \/ (e.st = "err" /\ ~e.saved)) ELSE IsOk(e, "C19")
         /\ Clause(e, "C19", "saving or loading changed something", Chg(e) = {})
         /\ Clause(e, "C19", "not the saved parameters", e.st = "ok" => ParSame(e.par, s.run[e.of].par))
         /\ Clause(e, "C19", "not the saved model", e.st = "ok" => e.desc = e.was)
         /\ Clause(e, "C19", "predicts something else", e.st = "ok" => MSame(e.pred, e.pwas))
         /\ Clause(e, "C19", "scores something else", e.st = "ok" => e.score = e.swas)

TrainPost(s, e) ==
  CASE e.op = "start" ->
         [s EXCEPT !.run = TWith(s.run, e.run, [base |-> e.base, hist |-> <<>>, par |-> e.par, in |-> e.in, out |-> e.out, ready |-> e.ready]),
                   !.par = IF <<e.base, <<>>>> \in DOMAIN s.par THEN s.par ELSE TWith(s.par, <<e.base, <<>>>>, e.par)]
    [] e.op = "load" ->
         IF e.st = "ok"
         THEN [s EXCEPT !.run = TWith(s.run, e.run, [base |-> e.base, hist |-> <<>>, par |-> e.par, in |-> s.run[e.of].in, out |-> s.run[e.of].out, ready |-> TRUE])]
         ELSE s
    [] e.op = "step" ->
         LET r == s.run[e.run]
             h == Append(r.hist, e.batch)
         IN  [s EXCEPT !.run[e.run].hist = h, !.run[e.run].par = e.par, !.par = TWith(s.par, <<r.base, h>>, e.par)]
    [] e.op = "eval" ->
         LET r == s.run[e.run] IN [s EXCEPT !.ev = TWith(s.ev, <<Key(r, <<>>), e.d>>, [loss |-> e.loss, acc |-> e.acc])]
    [] e.op = "fit" ->
         LET r == s.run[e.run] IN
         IF e.st = "ok" THEN [s EXCEPT !.run[e.run].hist = @ \o FitSteps(r, e), !.run[e.run].par = e.par] ELSE s
    [] e.op = "addlayer" -> [s EXCEPT !.run[e.run].ready = FALSE]
    [] OTHER -> s
=============================================================================
