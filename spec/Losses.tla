------------------------------- MODULE Losses -------------------------------
(* Loss functions and accuracy metrics.  P: predictions, Y: labels.          *)
EXTENDS Mat, Labels

LossKinds == {"mse", "mae", "ce", "bce"}
PLow == NLit("1e-7")
PHigh == NSub(N1, PLow)
ClipP(p) == NMax(PLow, NMin(p, PHigh))

LossFits(size, P, Y) == P.c = size /\ Y.c = size /\ P.r = Y.r

Cells(P) == NInt(P.r * P.c)
MeanOver(P, f(_, _)) == NDiv(NSum(P.r, LAMBDA i : NSum(P.c, LAMBDA j : f(i, j))), Cells(P))

Sq(x) == NMul(x, x)
CellBce(p, y) ==
  LET q == ClipP(p) IN NNeg(NAdd(NMul(y, NLn(q)), NMul(NSub(N1, y), NLn(NSub(N1, q)))))
LossValue(kind, P, Y) ==
  CASE kind = "mse" -> MeanOver(P, LAMBDA i, j : Sq(NSub(P.m[i][j], Y.m[i][j])))
    [] kind = "mae" -> MeanOver(P, LAMBDA i, j : NAbs(NSub(P.m[i][j], Y.m[i][j])))
    [] kind = "bce" -> MeanOver(P, LAMBDA i, j : CellBce(P.m[i][j], Y.m[i][j]))
    [] kind = "ce" -> \* one-hot labels: minus the log of the probability of the true class
         NDiv(NSum(P.r, LAMBDA i : NNeg(NLn(NSum(P.c, LAMBDA j : NMul(Y.m[i][j], ClipP(P.m[i][j])))))), NInt(P.r))

Sign(x) == IF NLt(N0, x) THEN N1 ELSE IF NLt(x, N0) THEN NNeg(N1) ELSE N0
LossGrad(kind, P, Y) ==
  CASE kind = "mse" -> MZip(P, Y, LAMBDA p, y : NDiv(NMul(NInt(2), NSub(p, y)), NInt(P.c)))
    [] kind = "mae" -> MZip(P, Y, LAMBDA p, y : NDiv(Sign(NSub(p, y)), NInt(P.c)))
    [] kind = "ce" -> MZip(P, Y, LAMBDA p, y : NDiv(NNeg(NDiv(y, ClipP(p))), NInt(P.r)))
    [] kind = "bce" -> MZip(P, Y, LAMBDA p, y :
         LET q == ClipP(p) IN NDiv(NNeg(NSub(NDiv(y, q), NDiv(NSub(N1, y), NSub(N1, q)))), Cells(P)))
\* Size of the terms in a gradient.
GradMag(kind, P, Y) ==
  CASE kind = "bce" -> MZip(P, Y, LAMBDA p, y :
         LET q == ClipP(p) IN NDiv(NAdd(NDiv(NAbs(y), q), NDiv(NAbs(NSub(N1, y)), NSub(N1, q))), Cells(P)))
    [] OTHER -> LossGrad(kind, P, Y)

\* ---- metrics ----
\* The first index (from 0) of a largest entry of a row.
ArgMax(row) == FirstLargest(row, NLt) - 1
ArgMaxes(P) == Mat(P.r, 1, LAMBDA i, j : NInt(ArgMax(P.m[i])))
Threshold(p) == IF NLt(p, NLit("0.5")) THEN N0 ELSE N1
Binary(P) == MMap(P, Threshold)

Fraction(k, n) == NDiv(NInt(k), NInt(n))
CountCells(P, Q(_, _)) == CountIf(P.r * P.c, LAMBDA k : Q(((k - 1) \div P.c) + 1, ((k - 1) % P.c) + 1))
Accuracy(kind, P, Y, prec) ==
  CASE kind = "regression" -> Fraction(CountCells(P, LAMBDA i, j : NLt(NAbs(NSub(P.m[i][j], Y.m[i][j])), prec)), P.r * P.c)
    [] kind = "categorical" -> Fraction(CountIf(P.r, LAMBDA i : NEq(Y.m[i][ArgMax(P.m[i]) + 1], N1)), P.r)
    [] kind = "binary" -> Fraction(CountCells(P, LAMBDA i, j : NEq(Threshold(P.m[i][j]), Y.m[i][j])), P.r * P.c)

\* ---- labels ----
OneHotValid(X, k) == k >= 1 /\ \A i \in 1 .. X.r : ~NLt(X.m[i][1], N0) /\ NLt(X.m[i][1], NInt(k))
OneHot(X, k) == LET R == [i \in 1 .. X.r |-> LabelRow(k, LAMBDA j : NEq(X.m[i][1], NInt(j - 1)), N0, N1)]
                IN  [r |-> X.r, c |-> k, m |-> TLCEval(R)]
IsOneHot(Y) == \A i \in 1 .. Y.r : CountIf(Y.c, LAMBDA j : NEq(Y.m[i][j], N1)) = 1 /\ CountIf(Y.c, LAMBDA j : NEq(Y.m[i][j], N0)) = Y.c - 1
=============================================================================
