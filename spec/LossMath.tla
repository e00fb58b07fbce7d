------------------------------ MODULE LossMath ------------------------------
(* C07, C08.  The gradients of Losses.tla are the derivatives of its values: *)
(* difference quotients over a grid of predictions and labels.               *)
EXTENDS Losses, Float64
CONSTANTS Fine
VARIABLES kind, P, Y
lvars == <<kind, P, Y>>

Grid == IF Fine THEN {"0.125", "0.3", "0.5", "0.625", "0.9"} ELSE {"0.125", "0.5", "0.9"}
M22(S) == {[r |-> 2, c |-> 2, m |-> <<<<a, b>>, <<c, d>>>>] : a \in S, b \in S, c \in S, d \in S}
Hot == {y \in M22({"0", "1"}) : IsOneHot(y)}

Init == /\ kind \in LossKinds
        /\ P \in M22(Grid)
        /\ Y \in CASE kind = "ce" -> Hot
                   [] kind = "bce" -> M22({"0", "0.75", "1"})
                   [] OTHER -> {[r |-> 2, c |-> 2, m |-> <<<<"0.4", "-1">>, <<"2", "0.7">>>>], [r |-> 2, c |-> 2, m |-> <<<<"0", "1">>, <<"0.2", "0.55">>>>]}
Next == UNCHANGED lvars

H == NLit("1e-5")
Bump(A, i, j, h) == [A EXCEPT !.m[i][j] = FStr(NAdd(@, h))]
Slope(F(_), i, j) == NDiv(NSub(F(Bump(P, i, j, H)), F(Bump(P, i, j, NNeg(H)))), NMul(NInt(2), H))
RowOf(A, i) == [r |-> 1, c |-> A.c, m |-> <<A.m[i]>>]
\* What is differentiated: the mean over the batch, or each sample's own loss.
Target(i, Q) == IF kind \in {"ce", "bce"} THEN LossValue(kind, Q, Y) ELSE LossValue(kind, RowOf(Q, i), RowOf(Y, i))
GradientIsDerivative ==
  \A i, j \in 1 .. 2 : NClose(LossGrad(kind, P, Y).m[i][j], Slope(LAMBDA Q : Target(i, Q), i, j), NLit("1e-6"), N1)
\* The loss of a batch is the mean of the losses of its samples.
MeanOfSamples == NClose(LossValue(kind, P, Y), NDiv(NAdd(LossValue(kind, RowOf(P, 1), RowOf(Y, 1)), LossValue(kind, RowOf(P, 2), RowOf(Y, 2))), NInt(2)), NLit("1e-12"), N1)
NonNegative == ~NLt(LossValue(kind, P, Y), N0)
PerfectIsBest == kind \in {"mse", "mae"} => NEq(LossValue(kind, Y, Y), N0)
\* Predictions of exactly 0 and 1 have finite losses and gradients.
Z == MMap(P, LAMBDA p : IF NLt(p, NLit("0.4")) THEN N0 ELSE IF NLt(p, NLit("0.6")) THEN N1 ELSE NLit("0.25"))
FiniteAtEdges == NFinite(LossValue(kind, Z, Y)) /\ MFinite(LossGrad(kind, Z, Y))
=============================================================================
