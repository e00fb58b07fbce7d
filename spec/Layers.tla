------------------------------- MODULE Layers -------------------------------
(* What the layers compute.  A layer is [kind, in, out, par, W, B]: par is   *)
(* the slope of a leaky and the rate of a dropout layer, W is in x out, B is *)
(* 1 x out.  Samples are rows.                                               *)
EXTENDS Mat

Kinds == {"hidden", "linear", "sigmoid", "leaky", "softmax", "dropout"}
Nonlinear(l) == l.kind # "linear"

\* Which arguments a constructor accepts.
NewValid(kind, in, out, par) ==
  /\ in >= 1 /\ out >= 1
  /\ kind = "leaky" => ~NLt(par, N0)
  /\ kind = "dropout" => ~NLt(par, N0) /\ ~NLt(N1, par)

\* ---- forward ----
Affine(X, W, B) ==
  LET P == MDot(X, W) IN Mat(P.r, P.c, LAMBDA i, j : NAdd(P.m[i][j], B.m[1][j]))
Pre(l, X) == Affine(X, l.W, l.B)
PreMag(l, X) == Affine(MAbs(X), MAbs(l.W), MAbs(l.B))

Relu(z) == NMax(z, N0)
Leaky(z, s) == IF NLt(z, N0) THEN NMul(z, s) ELSE z
Sigmoid(z) == NDiv(N1, NAdd(N1, NExp(NNeg(z))))
RowMaxVal(row) == FoldLeft(LAMBDA a, v : NMax(a, v), row[1], row)
SoftmaxRow(row) ==
  LET top == RowMaxVal(row)
      ex == TLCEval([j \in 1 .. Len(row) |-> NExp(NSub(row[j], top))])
      sum == FoldLeft(LAMBDA a, v : NAdd(a, v), N0, ex)
  IN  TLCEval([j \in 1 .. Len(row) |-> NDiv(ex[j], sum)])
Softmax(Z) == [r |-> Z.r, c |-> Z.c, m |-> TLCEval([i \in 1 .. Z.r |-> SoftmaxRow(Z.m[i])])]

\* The activation without dropout.
Activate(l, Z) ==
  CASE l.kind \in {"hidden", "dropout"} -> MMap(Z, Relu)
    [] l.kind = "linear" -> Z
    [] l.kind = "sigmoid" -> MMap(Z, Sigmoid)
    [] l.kind = "leaky" -> MMap(Z, LAMBDA z : Leaky(z, l.par))
    [] l.kind = "softmax" -> Softmax(Z)
Forward(l, X) == Activate(l, Pre(l, X))

\* Size of the rounding errors of an output Y computed from Z: G is PreMag.
OutMag(l, Y, G) ==
  CASE l.kind = "sigmoid" -> MZip(Y, G, LAMBDA y, g : NMul(y, NAdd(N1, g)))
    [] l.kind = "softmax" -> LET M == [i \in 1 .. G.r |-> RowMaxVal(G.m[i])]
                             IN  Mat(Y.r, Y.c, LAMBDA i, j : NMul(Y.m[i][j], NAdd(NInt(2 + Y.c), NMul(NInt(2), M[i]))))
    [] OTHER -> G

\* ---- backward ----
\* Gradient at the pre-activations, from the gradient D at the outputs.
DSigmoid(z) == NMul(Sigmoid(z), Sigmoid(NNeg(z)))
Step(z) == IF NLt(N0, z) THEN N1 ELSE N0
LeakyStep(z, s) == IF NLt(z, N0) THEN s ELSE N1
SoftmaxGrad(P, D) ==
  LET dots == TLCEval([i \in 1 .. P.r |-> NSum(P.c, LAMBDA k : NMul(P.m[i][k], D.m[i][k]))])
  IN  Mat(P.r, P.c, LAMBDA i, j : NMul(P.m[i][j], NSub(D.m[i][j], dots[i])))
PreGrad(l, Z, D) ==
  CASE l.kind = "hidden" -> MZip(Z, D, LAMBDA z, d : NMul(Step(z), d))
    [] l.kind = "linear" -> D
    [] l.kind = "sigmoid" -> MZip(Z, D, LAMBDA z, d : NMul(DSigmoid(z), d))
    [] l.kind = "leaky" -> MZip(Z, D, LAMBDA z, d : NMul(LeakyStep(z, l.par), d))
    [] l.kind = "softmax" -> SoftmaxGrad(Softmax(Z), D)
\* A dropout layer, with the factors that multiplied its ReLU outputs.
PreGradMask(Z, D, F) == Mat(Z.r, Z.c, LAMBDA i, j : NMul(NMul(Step(Z.m[i][j]), F.m[i][j]), D.m[i][j]))

\* Size of the terms in PreGrad.
PreGradMag(l, Z, D) ==
  CASE l.kind = "softmax" ->
         LET P == Softmax(Z)
             A == MAbs(D)
             dots == TLCEval([i \in 1 .. P.r |-> NSum(P.c, LAMBDA k : NMul(P.m[i][k], A.m[i][k]))])
         IN  Mat(P.r, P.c, LAMBDA i, j : NMul(P.m[i][j], NAdd(A.m[i][j], dots[i])))
    [] l.kind = "sigmoid" -> MAbs(D)
    [] OTHER -> MAbs(PreGrad(l, Z, D))

\* The three gradients, from the gradient G at the pre-activations.
GradW(X, G) == MDot(MT(X), G)
GradB(G) == MSum0(G)
GradX(l, G) == MDot(G, MT(l.W))
Backward(l, X, D) ==
  LET G == PreGrad(l, Pre(l, X), D)
  IN  [dw |-> GradW(X, G), db |-> GradB(G), dx |-> GradX(l, G)]
=============================================================================
