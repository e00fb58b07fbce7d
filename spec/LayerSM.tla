------------------------------ MODULE LayerSM ------------------------------
(* C03, C04, C05, C06, C26.  State: named layers; of each, besides its      *)
(* parameters, what its most recent forward pass was: nothing, or the       *)
(* pre-activations z and (dropout) the factors f the outputs were           *)
(* multiplied with.                                                         *)
EXTENDS Layers, Clauses, Past

None == [r |-> 0, c |-> 0, m |-> <<>>]
LayerStart == [o \in {} |-> 0]
LTol == NLit("1e-11")
WithKey(s, k, v) == [o \in DOMAIN s \cup {k} |-> IF o = k THEN v ELSE s[o]]

\* ---- which calls are valid ----
FwdValid(l, X) == X.c = l.in
BwdValid(l, X, D) ==
  /\ X.c = l.in /\ D.c = l.out
  /\ X.r = D.r
  /\ Nonlinear(l) => l.z # None /\ l.z.r = D.r
BceValid(l, X, Y, P) == X.c = l.in /\ Y.c = l.out /\ P.c = l.out /\ Y.r = P.r /\ X.r = P.r

\* ---- forward ----
RowsAreDistributions(Y) ==
  \A i \in 1 .. Y.r :
    /\ \A j \in 1 .. Y.c : NFinite(Y.m[i][j]) /\ ~NLt(Y.m[i][j], N0)
    /\ NClose(NSum(Y.c, LAMBDA j : Y.m[i][j]), N1, NLit("1e-9"), N1)

FwdOK(l, X, Y) ==
  LET E == Forward(l, X)
  IN  MCloseS(Y, E, LTol, OutMag(l, E, PreMag(l, X)))

\* A training pass of a dropout layer.
Keep(l) == NSub(N1, l.par)
DropOK(l, X, Y) ==
  LET R == MMap(Pre(l, X), Relu)
      G == PreMag(l, X)
  IN  /\ WF(Y) /\ SameShape(Y, R)
      /\ \A i \in 1 .. R.r, j \in 1 .. R.c :
           \/ NEq(Y.m[i][j], N0) /\ (NEq(l.par, N0) => NEq(R.m[i][j], N0))
           \/ /\ NLt(l.par, N1)
              /\ NClose(Y.m[i][j], NDiv(R.m[i][j], Keep(l)), LTol, NDiv(G.m[i][j], Keep(l)))
DropFactors(l, X, Y) ==
  Mat(Y.r, Y.c, LAMBDA i, j : IF NEq(Y.m[i][j], N0) \/ ~NLt(l.par, N1) THEN N0 ELSE NDiv(N1, Keep(l)))

\* ---- backward ----
BwdOK(l, e) ==
  LET X == e.x
      D == e.dv
      G == IF l.kind = "dropout" THEN PreGradMask(l.z, D, l.f) ELSE PreGrad(l, l.z, D)
      \* of a sigmoid, 1 - s loses the digits of a small s
      S == CASE l.kind = "dropout" -> MAbs(G)
             [] l.kind = "sigmoid" -> MZip(D, G, LAMBDA d, q : NAdd(NMul(NLit("10"), NAbs(q)), NMul(NLit("1e-4"), NAbs(d))))
             [] OTHER -> PreGradMag(l, l.z, D)
  IN  /\ MCloseS(e.dw, GradW(X, G), LTol, GradW(MAbs(X), S))
      /\ MCloseS(e.db, GradB(G), LTol, GradB(S))
      /\ MCloseS(e.dx, GradX(l, G), LTol, MDot(S, MT(MAbs(l.W))))

\* Fused softmax and cross-entropy: (p - y) / samples at the softmax inputs.
FusedGrad(P, Y) == MZip(P, Y, LAMBDA p, y : NDiv(NSub(p, y), NInt(P.r)))
FusedMag(P, Y) == MZip(P, Y, LAMBDA p, y : NDiv(NAdd(NAbs(p), NAbs(y)), NInt(P.r)))
BceOK(l, e) ==
  LET G == FusedGrad(e.p, e.y)
      S == FusedMag(e.p, e.y)
  IN  /\ MCloseS(e.dw, GradW(e.x, G), LTol, GradW(MAbs(e.x), S))
      /\ MCloseS(e.db, GradB(G), LTol, GradB(S))
      /\ MCloseS(e.dx, GradX(l, G), LTol, MDot(S, MT(MAbs(l.W))))

\* ---- statistics ----
\* k successes in n independent trials of probability q.
Binomial(n, k, q) ==
  LET mean == NMul(NInt(n), q)
      sd == NSqrt(NMul(mean, NSub(N1, q)))
  IN  NLe(NAbs(NSub(NInt(k), mean)), NAdd(NLit("4"), NMul(NLit("7"), sd)))

\* Sum of n independent standard normals, of their squares, ... within 6.5 sigma (and slack for the tails
\* of short sums).
Near(x, mean, var) == NLe(NAbs(NSub(x, mean)), NAdd(NLit("30"), NMul(NLit("6.5"), NSqrt(var))))

\* Share of a standard normal distribution within so many standard deviations (see InitModel).
Inside == "0.25" :> "0.1974126513658474" @@ "1" :> "0.6826894921370859" @@ "2" :> "0.9544997361036416" @@ "3" :> "0.9973002039367398"
\* Cells of a freshly drawn matrix that may repeat another's value.
Repeats(n) == IF n <= 30 THEN 0 ELSE IF n <= 200 THEN 1 ELSE 5
Values(A) == {A.m[i][j] : i \in 1 .. A.r, j \in 1 .. A.c}

LayerAccept(s, e) ==
  CASE e.op = "new" ->
         IF NewValid(e.kind, e.in, e.out, e.par)
         THEN /\ IsOk(e, "C05")
              /\ Clause(e, "C05", "parameters of a new layer of the wrong size",
                   e.st = "ok" => WF(e.W) /\ WF(e.B) /\ e.W.r = e.in /\ e.W.c = e.out /\ e.B.r = 1 /\ e.B.c = e.out)
              /\ Clause(e, "C26", "biases of a new layer are not 0, or parameters of the wrong size",
                   e.st = "ok" => MSame0(e.B, Zeros(1, e.out)) /\ WF(e.W) /\ e.W.r = e.in /\ e.W.c = e.out)
         ELSE IsErr(e, "C05")
    [] e.op \in {"setp", "repar", "let"} -> TRUE
    [] e.op = "reload" ->           \* the layer is replaced by what loading its saved form gives
         /\ IsOk(e, "C05")
         /\ Clause(e, "C05", "a loaded layer has other sizes", e.st = "ok" =>
              /\ WF(e.W) /\ SameShape(e.W, s[e.o].W) /\ SameShape(e.B, s[e.o].B)
              /\ e.kind = s[e.o].kind /\ e.in = s[e.o].in /\ e.out = s[e.o].out)
    [] e.op = "mut" -> \A p \in {"C03", "C04", "C06"} : Clause(e, p, "a change of a returned matrix shows elsewhere", Chg(e) \subseteq {e.a})
    [] e.op \in {"fwd", "nodrop"} ->
         LET l == s[e.o]
             train == l.kind = "dropout" /\ e.op = "fwd"
             p == IF train THEN "C06" ELSE "C03"
         IN  IF FwdValid(l, e.x)
             THEN /\ IsOk(e, p)
                  /\ (IF train
                      THEN ClauseX(e, "C06", "not a dropped-out ReLU", e.st = "ok" => DropOK(l, e.x, e.res), Pre(l, e.x))
                      ELSE ClauseX(e, "C03", "wrong output", e.st = "ok" => FwdOK(l, e.x, e.res), Forward(l, e.x)))
                  /\ e.op = "nodrop" =>
                       /\ IsOk(e, "C06")
                       /\ ClauseX(e, "C06", "an inference pass drops or changes units", e.st = "ok" => FwdOK(l, e.x, e.res), Forward(l, e.x))
                  /\ Clause(e, "C03", "softmax row is not a finite distribution", e.st = "ok" /\ l.kind = "softmax" => RowsAreDistributions(e.res))
                  /\ NoChange(e, p)
             ELSE IsErr(e, "C03") /\ NoChange(e, "C03") /\ NoChange(e, "C05")
    [] e.op = "bwd" ->
         LET l == s[e.o]
             p == IF l.kind = "dropout" THEN "C06" ELSE "C04"
         IN  IF BwdValid(l, e.x, e.dv)
             THEN /\ IsOk(e, p)
                  /\ IsOk(e, "C05")
                  /\ ClauseX(e, p, "not the derivative of the latest forward pass", e.st = "ok" => BwdOK(l, e),
                             IF l.kind = "dropout" THEN PreGradMask(l.z, e.dv, l.f) ELSE PreGrad(l, l.z, e.dv))
                  /\ Clause(e, "C05", "gradients of the wrong shape, or wrong after a misuse", e.st = "ok" => BwdOK(l, e))
                  /\ NoChange(e, p)
             ELSE IsErr(e, "C05") /\ NoChange(e, "C05")
    [] e.op = "bce" ->
         LET l == s[e.o]
         IN  IF BceValid(l, e.x, e.y, e.p)
             THEN /\ IsOk(e, "C14") /\ IsOk(e, "C05")
                  /\ Clause(e, "C14", "not the fused gradient", e.st = "ok" => BceOK(l, e))
                  /\ NoChange(e, "C14")
             ELSE IsErr(e, "C05") /\ NoChange(e, "C05")
    [] e.op = "init" ->
         /\ IsOk(e, "C26")
         /\ ChangesOnly(e, "C26", {e.w})
         /\ ClauseX(e, "C26", "a weight was kept", e.st = "ok" =>
              /\ WF(e.W) /\ SameShape(e.W, s[e.o].W)
              /\ \A i \in 1 .. e.W.r, j \in 1 .. e.W.c : NFinite(e.W.m[i][j]) /\ ~NEq(e.W.m[i][j], s[e.o].W.m[i][j]), s[e.o].W)
         /\ Clause(e, "C26", "weights repeat others", e.st = "ok" => e.W.r * e.W.c - Cardinality(Values(e.W)) <= Repeats(e.W.r * e.W.c))
    [] e.op = "initmodel" -> IsOk(e, "C26") /\ ChangesOnly(e, "C26", SeqRange(e.ws))
    [] e.op = "normal" ->
         \* standardized weights of many initializations
         /\ IsOk(e, "C26")
         /\ Clause(e, "C26", "mean is not 0", Near(e.sum, N0, NInt(e.n)))
         /\ Clause(e, "C26", "variance is not 2/inputs", Near(e.sq, NInt(e.n), NInt(2 * e.n)))
         /\ Clause(e, "C26", "skewed", Near(e.cube, N0, NInt(20 * e.n)))
         /\ \A k \in DOMAIN Inside : ClauseX(e, "C26", "not normal (share within some standard deviations)", Binomial(e.n, e.within[k], NLit(Inside[k])), k)
         /\ Clause(e, "C26", "not normal (positive)", Binomial(e.n, e.pos, NLit("0.5")))
         /\ \A k \in 1 .. Len(e.prod) :
              ClauseX(e, "C26", "weights are not independent", Near(e.prod[k].sum, N0, NInt(e.prod[k].n)), e.prod[k].name)
         /\ \A k \in 1 .. Len(e.part) :
              /\ ClauseX(e, "C26", "mean of a row or column is not 0", Near(e.part[k].sum, N0, NInt(e.part[k].n)), e.part[k].name)
              /\ ClauseX(e, "C26", "variance of a row or column is not 2/inputs", Near(e.part[k].sq, NInt(e.part[k].n), NInt(2 * e.part[k].n)), e.part[k].name)
         /\ Clause(e, "C26", "the same weights twice", e.dup = 0)
    [] e.op = "kept" ->
         \* counts of kept units over many passes
         LET q == NSub(N1, e.rate)
         IN  /\ IsOk(e, "C06")
             /\ ClauseX(e, "C06", "units are not dropped with the configured rate", Binomial(e.n, e.k, q), e.rate)
             /\ \A k \in 1 .. Len(e.part) :
                  ClauseX(e, "C06", "a unit or row is not dropped with the configured rate", Binomial(e.part[k].n, e.part[k].k, q), e.part[k])
             /\ \A k \in 1 .. Len(e.pair) :
                  ClauseX(e, "C06", "units are not dropped independently", Binomial(e.pair[k].n, e.pair[k].both, NMul(q, q)), e.pair[k])

\* What there is to remember of a forward pass: the pre-activations and the factors of a dropout layer.
NoPast == [z |-> None, f |-> None]
ItsPast(l, e) ==
  LET Z == MCanon(Pre(l, e.x))
  IN  [z |-> Z,
       f |-> IF l.kind # "dropout" THEN None
             ELSE IF e.op = "nodrop" THEN MCanon(Ones(Z.r, Z.c))
             ELSE IF WF(e.res) /\ SameShape(e.res, Z) THEN MCanon(DropFactors(l, e.x, e.res)) ELSE None]

LayerPost(s, e) ==
  CASE e.op = "new" ->
         IF e.st = "ok"
         THEN WithKey(s, e.o, [kind |-> e.kind, in |-> e.in, out |-> e.out, par |-> e.par, W |-> e.W, B |-> e.B, z |-> None, f |-> None])
         ELSE s
    [] e.op = "setp" -> [s EXCEPT ![e.o].W = e.W, ![e.o].B = e.B]
    [] e.op = "repar" -> [s EXCEPT ![e.o].par = e.par]      \* the caller sets the slope or the rate
    [] e.op = "init" -> IF Has(e, "W") THEN [s EXCEPT ![e.o].W = e.W] ELSE s
    [] e.op = "reload" /\ e.st = "ok" ->
         LET p == PastAfter([z |-> s[e.o].z, f |-> s[e.o].f], e, TRUE, NoPast, NoPast)
         IN  [s EXCEPT ![e.o].W = e.W, ![e.o].B = e.B, ![e.o].par = e.par, ![e.o].z = p.z, ![e.o].f = p.f]
    [] e.op \in Passes ->
         LET l == s[e.o]
             fits == FwdValid(l, e.x)
             p == PastAfter([z |-> l.z, f |-> l.f], e, fits, IF e.st = "ok" /\ fits THEN ItsPast(l, e) ELSE NoPast, NoPast)
         IN  [s EXCEPT ![e.o].z = p.z, ![e.o].f = p.f]
    [] OTHER -> s
=============================================================================
