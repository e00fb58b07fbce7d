----------------------------- MODULE LayerMath -----------------------------
(* C03, C04.  The backward definitions of Layers.tla are the derivatives of  *)
(* its forward definitions: checked against difference quotients for every   *)
(* kind of layer and a grid of parameters, inputs and upstream gradients.    *)
EXTENDS LayerSM, Float64

CONSTANTS Wide
VARIABLES l, X, D
mvars == <<l, X, D>>

V == {"-1", "0.5", "2"}
Weights == {[r |-> 2, c |-> 2, m |-> <<<<a, b>>, <<c, d>>>>] : a \in V, b \in V, c \in V, d \in (IF Wide THEN V ELSE {"0.5"})}
Inputs == {[r |-> 2, c |-> 2, m |-> <<<<"1", "0">>, <<"-0.75", "1.5">>>>],
           [r |-> 1, c |-> 2, m |-> <<<<"2", "1">>>>],
           [r |-> 2, c |-> 2, m |-> <<<<"0.3", "-0.7">>, <<"0", "0">>>>]}
Ups(r) == {Mat(r, 2, LAMBDA i, j : IF (i + j) % 2 = 0 THEN "1" ELSE "-0.5"),
           Mat(r, 2, LAMBDA i, j : IF i = j THEN "0" ELSE "3")}
Bias == [r |-> 1, c |-> 2, m |-> <<<<"0.25", "0">>>>]

Init == /\ l \in {[kind |-> k[1], in |-> 2, out |-> 2, par |-> k[2], W |-> w, B |-> Bias] :
                    k \in {<<"hidden", "0">>, <<"linear", "0">>, <<"sigmoid", "0">>, <<"leaky", "0.125">>, <<"leaky", "0">>, <<"softmax", "0">>}, w \in Weights}
        /\ X \in Inputs
        /\ D \in Ups(X.r)
Next == UNCHANGED mvars

H == NLit("1e-5")
Obj(ll, x) == LET Y == Forward(ll, x) IN NSum(Y.r, LAMBDA i : NSum(Y.c, LAMBDA j : NMul(Y.m[i][j], D.m[i][j])))
Bump(A, i, j, h) == [A EXCEPT !.m[i][j] = FStr(NAdd(@, h))]
Quot(F(_)) == NDiv(NSub(F(H), F(NNeg(H))), NMul(NInt(2), H))
AtKink == l.kind \in {"hidden", "leaky"} /\ \E i \in 1 .. X.r, j \in 1 .. 2 : NClose(Pre(l, X).m[i][j], N0, NLit("1e-3"), N1)

Eq(a, b) == NClose(a, b, NLit("1e-6"), N1)
BackwardIsDerivative ==
  AtKink \/
  LET G == Backward(l, X, D)
  IN  /\ \A i, j \in 1 .. 2 : Eq(G.dw.m[i][j], Quot(LAMBDA h : Obj([l EXCEPT !.W = Bump(l.W, i, j, h)], X)))
      /\ \A j \in 1 .. 2 : Eq(G.db.m[1][j], Quot(LAMBDA h : Obj([l EXCEPT !.B = Bump(l.B, 1, j, h)], X)))
      /\ \A i \in 1 .. X.r, j \in 1 .. 2 : Eq(G.dx.m[i][j], Quot(LAMBDA h : Obj(l, Bump(X, i, j, h))))
\* At a kink: the left derivative of the rectifier, the right one of the leaky rectifier.
One(k, z) == Activate([l EXCEPT !.kind = k], [r |-> 1, c |-> 1, m |-> <<<<z>>>>]).m[1][1]
Kinks ==
  \A z \in {"0", "1", "-1"} :
    LET Z == [r |-> 1, c |-> 1, m |-> <<<<z>>>>]
        U == Ones(1, 1)
    IN  /\ l.kind = "hidden" => Eq(PreGrad(l, Z, U).m[1][1], NDiv(NSub(One("hidden", z), One("hidden", NSub(z, H))), H))
        /\ l.kind = "leaky" => Eq(PreGrad(l, Z, U).m[1][1], NDiv(NSub(One("leaky", NAdd(z, H)), One("leaky", z)), H))
\* The fused gradient of softmax and cross-entropy is the one through both.
Labels == {[r |-> X.r, c |-> 2, m |-> [i \in 1 .. X.r |-> IF f[i] = 1 THEN <<"1", "0">> ELSE <<"0", "1">>]] : f \in [1 .. X.r -> {1, 2}]}
Fused ==
  l.kind = "softmax" =>
    \A Y \in Labels :
      LET P == Forward(l, X)
          ThroughBoth == SoftmaxGrad(P, MZip(P, Y, LAMBDA p, y : NNeg(NDiv(NDiv(y, p), NInt(P.r)))))
      IN  MClose1(FusedGrad(P, Y), ThroughBoth, NLit("1e-9"))
Distributions == l.kind = "softmax" => RowsAreDistributions(Forward(l, X))
SigmoidSymmetric == l.kind = "sigmoid" => MClose1(MAddS(MMulS(Forward(l, X), NInt(-1)), N1), MMap(Pre(l, X), LAMBDA z : Sigmoid(NNeg(z))), NLit("1e-12"))
=============================================================================
