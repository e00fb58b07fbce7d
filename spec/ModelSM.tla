------------------------------ MODULE ModelSM ------------------------------
(* C12, C13, C14.  State of one model: its layers (with what their latest   *)
(* forward pass was), its loss, metric and optimizers, as a fold over the   *)
(* accepted calls.                                                          *)
EXTENDS LayerSM, Optim, Losses, Assembly

Z0 == NCanon(N0)
NoLoss == [kind |-> "none", size |-> 0, id |-> 0]
ModelStart ==
  [lay |-> <<>>, loss |-> NoLoss, acc |-> 0, prec |-> Z0, ok |-> "sgd",
   h |-> [rate |-> Z0, decay |-> Z0, mom |-> Z0, eps |-> Z0, b1 |-> Z0, b2 |-> Z0], opts |-> <<>>]

LossCode(k) == CASE k = "mse" -> 0 [] k = "mae" -> 1 [] k = "ce" -> 2 [] k = "bce" -> 3 [] k = "none" -> 0
OptCode(k) == IF k = "adam" THEN 1 ELSE 0
AccKinds == <<"regression", "categorical", "binary">>

\* ---- which calls are accepted ----
AddFits(s, e) == MayAdd(s, e)
FinFits(s, e) == MayTake(s, e) /\ ~NLt(e.prec, N0)
Finalized(s) == s.loss.kind # "none"

\* ---- what can be seen of a model ----
ObsOK(s, b) ==
  /\ b.n = Depth(s) /\ b.in = InSize(s) /\ b.out = OutSize(s)
  /\ b.ids = [i \in 1 .. Depth(s) |-> s.lay[i].id]
  /\ b.loss = s.loss.id
  /\ b.acc = s.acc /\ NEq(b.prec, s.prec)
  /\ b.nopt = Len(s.opts)
  /\ Finalized(s) =>
       /\ b.lcode = LossCode(s.loss.kind)
       /\ b.ocode = OptCode(s.ok)
       /\ NEq(b.h.rate, s.h.rate) /\ NEq(b.h.decay, s.h.decay)
       /\ s.ok = "sgd" => NEq(b.h.mom, s.h.mom)
       /\ s.ok = "adam" => NEq(b.h.eps, s.h.eps) /\ NEq(b.h.b1, s.h.b1) /\ NEq(b.h.b2, s.h.b2)

AfterAdd(s, e) ==
  WithLayer(s, [id |-> e.id, kind |-> e.kind, in |-> e.in, out |-> e.out, par |-> e.par, W |-> e.W, B |-> e.B, z |-> None, f |-> None])
AfterFin(s, e) ==
  LET n == WithLoss(s, [kind |-> e.loss, size |-> e.size, id |-> e.lid], ~NLt(e.prec, N0), Optimizer(e.kind, e.h))
  IN  IF FinFits(s, e) THEN [n EXCEPT !.acc = e.acc, !.prec = e.prec, !.ok = e.kind, !.h = e.h] ELSE n

\* ---- passes ----
\* The output of an inference pass, and bounds for the rounding errors of each entry.
RECURSIVE Through(_, _, _, _)
Through(lay, k, X, G) ==
  IF k > Len(lay) THEN [y |-> X, g |-> G]
  ELSE LET l == lay[k]
           Y == Forward(l, X)
           \* errors of the input spread through |W|
           A == Affine(G, MAbs(l.W), MAbs(l.B))
       IN  Through(lay, k + 1, Y, CASE l.kind \in {"softmax"} -> MZip(Y, OutMag(l, Y, A), LAMBDA y, m : NAdd(y, m))
                                     [] l.kind = "leaky" -> MMap(A, LAMBDA a : NMul(a, NMax(N1, l.par)))
                                     [] OTHER -> A)
Infer(s, X) == Through(s.lay, 1, X, MAbs(X))
MTol == NLit("1e-9")

\* Each output is the layer applied to the previous output that was returned.
FwdStep(l, train, X, Y) == IF train /\ l.kind = "dropout" THEN DropOK(l, X, Y) ELSE FwdOK(l, X, Y)
FwdAllOK(s, e) ==
  /\ Len(e.outs) = Depth(s) + 1
  /\ MSame(e.outs[1], e.x)
  /\ \A k \in 1 .. Depth(s) : FwdStep(s.lay[k], e.tr, e.outs[k], e.outs[k + 1])
AfterFwd(s, e) ==
  IF e.st = "ok" /\ Len(e.outs) = Depth(s) + 1 /\ e.x.c = InSize(s)
  THEN [s EXCEPT !.lay = [k \in 1 .. Depth(s) |->
          LET l == s.lay[k]
              Z == MCanon(Pre(l, e.outs[k]))
          IN  [l EXCEPT !.z = Z,
                 !.f = IF l.kind # "dropout" THEN None
                       ELSE IF e.tr THEN (IF SameShape(e.outs[k + 1], Z) THEN MCanon(DropFactors(l, e.outs[k], e.outs[k + 1])) ELSE None)
                       ELSE MCanon(Ones(Z.r, Z.c))]]]
  ELSE s

\* ---- evaluation ----
LabelsFit(s, X, Y) == X.c = InSize(s) /\ Y.c = OutSize(s) /\ X.r = Y.r
LossOK(s, e) ==
  LET T == Infer(s, e.x)
      v == LossValue(s.loss.kind, T.y, e.y)
      \* how far the value may move with the outputs
      slack == CASE s.loss.kind = "mae" -> MeanOver(T.g, LAMBDA i, j : T.g.m[i][j])
                 [] s.loss.kind = "mse" -> MeanOver(T.g, LAMBDA i, j : NMul(T.g.m[i][j], NAdd(N1, NMul(NInt(2), NAdd(T.g.m[i][j], NAbs(e.y.m[i][j]))))))
                 [] OTHER -> NAdd(N1, MeanOver(T.g, LAMBDA i, j : NDiv(T.g.m[i][j], NMin(ClipP(T.y.m[i][j]), NSub(N1, ClipP(T.y.m[i][j]))))))
  IN  NClose(e.val, v, MTol, slack)

\* Equal values are ties on purpose; almost equal ones may be rounding.
Fuzzy(a, b, g) == ~NEq(a, b) /\ NClose(a, b, NLit("1e-11"), g)
AsLargeAs(row, gs, top, j) ==
  \/ j = top
  \/ /\ j \in 0 .. Len(row) - 1
     /\ Fuzzy(row[j + 1], row[top + 1], NMax(gs[j + 1], gs[top + 1]))
ArgMaxOK(row, gs, j) == LET top == TLCEval(ArgMax(row)) IN AsLargeAs(row, gs, top, j)
Half == NLit("0.5")
ThresholdOK(p, g, d) == NEq(d, Threshold(p)) \/ (Fuzzy(p, Half, g) /\ (NEq(d, N0) \/ NEq(d, N1)))

\* Number of correct entries: at least / at most.
AccBounds(s, T, Y, strict) ==
  LET k == AccKinds[s.acc + 1]
      P == T.y
      sure(i, j) == CASE k = "regression" ->
                           LET d == NAbs(NSub(P.m[i][j], Y.m[i][j])) IN
                           IF Fuzzy(d, s.prec, NAdd(T.g.m[i][j], NAbs(Y.m[i][j]))) THEN ~strict ELSE NLt(d, s.prec)
                      [] k = "binary" ->
                           IF Fuzzy(P.m[i][j], Half, T.g.m[i][j]) THEN ~strict ELSE NEq(Threshold(P.m[i][j]), Y.m[i][j])
                      [] OTHER ->
                           LET top == TLCEval(ArgMax(P.m[i]))
                               best == {q \in 1 .. P.c : AsLargeAs(P.m[i], T.g.m[i], top, q - 1)}
                               right == {q \in best : NEq(Y.m[i][q], N1)}
                           IN  IF strict THEN right = best ELSE right # {}
  IN  IF k = "categorical" THEN Fraction(CountIf(P.r, LAMBDA i : sure(i, 1)), P.r)
      ELSE Fraction(CountCells(P, sure), P.r * P.c)
AccOK(s, e) ==
  LET T == Infer(s, e.x)
      lo == AccBounds(s, T, e.y, TRUE)
      hi == AccBounds(s, T, e.y, FALSE)
      t == NLit("1e-12")
  IN  NLe(NSub(lo, t), e.val) /\ NLe(e.val, NAdd(hi, t))

PredOK(s, e) ==
  LET T == Infer(s, e.x)
      k == AccKinds[s.acc + 1]
      R == e.res
  IN  CASE k = "regression" -> MCloseS(R, T.y, MTol, T.g)
        [] k = "categorical" -> /\ WF(R) /\ R.r = T.y.r /\ R.c = 1
                                /\ \A i \in 1 .. R.r : NEq(R.m[i][1], NInt(NTrunc(R.m[i][1]))) /\ ArgMaxOK(T.y.m[i], T.g.m[i], NTrunc(R.m[i][1]))
        [] k = "binary" -> /\ WF(R) /\ SameShape(R, T.y)
                           /\ \A i \in 1 .. R.r, j \in 1 .. R.c : ThresholdOK(T.y.m[i][j], T.g.m[i][j], R.m[i][j])

\* ---- backward ----
FusedLast(s) == s.loss.kind = "ce" /\ s.lay[Depth(s)].kind = "softmax"
LayerGrad(l, D) == IF l.kind = "dropout" THEN PreGradMask(l.z, D, l.f) ELSE PreGrad(l, l.z, D)
LayerGradMag(l, D) == IF l.kind = "dropout" THEN PreGradMask(l.z, D, l.f) ELSE PreGradMag(l, l.z, D)
\* From the last layer to the first: G at the pre-activations of layer k, S its magnitude.
RECURSIVE ChainOK(_, _, _, _, _)
ChainOK(s, e, k, G, S) ==
  LET l == s.lay[k]
      X == e.outs[k]
      q == Depth(s) - k + 1
      D == GradX(l, G)
      A == MDot(S, MT(MAbs(l.W)))
  IN  /\ MCloseS(e.dws[q], GradW(X, G), MTol, GradW(MAbs(X), S))
      /\ MCloseS(e.dbs[q], GradB(G), MTol, GradB(S))
      /\ k > 1 => ChainOK(s, e, k - 1, LayerGrad(s.lay[k - 1], D), LayerGradMag(s.lay[k - 1], A))
BackwardOK(s, e) ==
  LET d == Depth(s)
      P == e.outs[d + 1]
      l == s.lay[d]
      D == LossGrad(s.loss.kind, P, e.y)
  IN  /\ Len(e.dws) = d /\ Len(e.dbs) = d
      /\ IF FusedLast(s)
         THEN ChainOK(s, e, d, FusedGrad(P, e.y), FusedMag(P, e.y))
         ELSE ChainOK(s, e, d, LayerGrad(l, D), LayerGradMag(l, GradMag(s.loss.kind, P, e.y)))
BwdFits(s, e) ==
  /\ Finalized(s) /\ Len(e.outs) = Depth(s) + 1
  /\ e.y.c = OutSize(s) /\ e.y.r = e.outs[Len(e.outs)].r

ModelAccept(s, e) ==
  CASE e.op = "add" ->
         /\ IF AddFits(s, e) THEN IsOk(e, "C12") ELSE IsErr(e, "C12")
         /\ ClauseX(e, "C12", "the model is not made of the accepted parts", ObsOK(AfterAdd(s, e), e.obs), AfterAdd(s, e))
         /\ NoChange(e, "C12")
    [] e.op = "fin" ->
         /\ IF FinFits(s, e) THEN IsOk(e, "C12") ELSE IsErr(e, "C12")
         /\ ClauseX(e, "C12", "the model is not made of the accepted parts", ObsOK(AfterFin(s, e), e.obs), AfterFin(s, e))
         /\ NoChange(e, "C12")
    [] e.op = "upd" ->
         LET o == s.opts[e.k]
             n == OptNext(o, e.dw, e.db)
             D == Deltas(o, n, e.dw, e.db)
             l == s.lay[e.k]
         IN  /\ IsOk(e, "C12")
             /\ ClauseX(e, "C12", "the layer's optimizer is not the one that was asked for, or has another history", e.st = "ok" =>
                  /\ MCloseS(e.W, MSub(l.W, D.w), NLit("1e-10"), MAdd(MAbs(l.W), D.sw))
                  /\ MCloseS(e.B, MSub(l.B, D.b), NLit("1e-10"), MAdd(MAbs(l.B), D.sb)), MSub(l.W, D.w))
             /\ ChangesOnly(e, "C12", {e.w, e.b})
    [] e.op \in {"setp", "mut", "let"} -> TRUE
    [] e.op = "fwd" ->
         /\ IF e.x.c = InSize(s)
            THEN /\ IsOk(e, "C13")
                 /\ Clause(e, "C13", "not the input followed by the output of every layer", e.st = "ok" => FwdAllOK(s, e))
            ELSE IsErr(e, "C13")
         /\ NoChange(e, "C13")
    [] e.op = "loss" ->
         /\ IF Finalized(s) /\ LabelsFit(s, e.x, e.y)
            THEN /\ IsOk(e, "C13")
                 /\ ClauseX(e, "C13", "not the loss of the inference pass", e.st = "ok" => LossOK(s, e), LossValue(s.loss.kind, Infer(s, e.x).y, e.y))
            ELSE IsErr(e, "C13")
         /\ NoChange(e, "C13")
    [] e.op = "acc" ->
         /\ IF s.acc \in 0 .. 2 /\ LabelsFit(s, e.x, e.y)
            THEN /\ IsOk(e, "C13")
                 /\ ClauseX(e, "C13", "not the metric of the inference pass", e.st = "ok" => AccOK(s, e), AccBounds(s, Infer(s, e.x), e.y, TRUE))
            ELSE IsErr(e, "C13")
         /\ NoChange(e, "C13")
    [] e.op = "pred" ->
         /\ IF s.acc \in 0 .. 2 /\ e.x.c = InSize(s)
            THEN /\ IsOk(e, "C13")
                 /\ ClauseX(e, "C13", "not the decoded output of the inference pass", e.st = "ok" => PredOK(s, e), Infer(s, e.x).y)
            ELSE IsErr(e, "C13")
         /\ NoChange(e, "C13")
    [] e.op = "bwd" ->
         /\ IF BwdFits(s, e)
            THEN /\ IsOk(e, "C14")
                 /\ Clause(e, "C14", "not the chain rule", e.st = "ok" => BackwardOK(s, e))
            ELSE IsErr(e, "C14")
         /\ NoChange(e, "C14")

ModelPost(s, e) ==
  CASE e.op = "add" -> AfterAdd(s, e)
    [] e.op = "fin" -> AfterFin(s, e)
    [] e.op = "upd" -> [s EXCEPT !.opts[e.k] = OptNext(@, e.dw, e.db),
                              \* a layer may be in the model several times
                              !.lay = [q \in DOMAIN @ |-> IF @[q].id = s.lay[e.k].id THEN [@[q] EXCEPT !.W = e.W, !.B = e.B] ELSE @[q]]]
    [] e.op = "setp" -> [s EXCEPT !.lay[e.k].W = e.W, !.lay[e.k].B = e.B]
    [] e.op = "fwd" -> AfterFwd(s, e)
    [] OTHER -> s
=============================================================================
