------------------------------ MODULE ModelMath ------------------------------
(* C14.  The chain rule of ModelSM is the derivative of the loss by every   *)
(* weight and bias of every layer: compared with difference quotients for   *)
(* every pair of layer kinds and every loss.                                *)
EXTENDS ModelSM, Float64
CONSTANTS Pars
VARIABLES s, X, Y
mvars == <<s, X, Y>>

W1s == {[r |-> 2, c |-> 2, m |-> <<<<"0.7", "-0.4">>, <<"0.3", "0.9">>>>], [r |-> 2, c |-> 2, m |-> <<<<"-0.2", "0.8">>, <<"1.1", "0.35">>>>],
        [r |-> 2, c |-> 2, m |-> <<<<"1.3", "-1.2">>, <<"-0.6", "0.45">>>>]}
B1 == [r |-> 1, c |-> 2, m |-> <<<<"0.15", "0.05">>>>]
KindPars == {<<"hidden", "0">>, <<"linear", "0">>, <<"sigmoid", "0">>, <<"leaky", "0.125">>, <<"softmax", "0">>, <<"dropout", "0">>}
Lay(k, W) == [id |-> 1, kind |-> k[1], in |-> 2, out |-> 2, par |-> k[2], W |-> W, B |-> B1, z |-> None, f |-> None]
XS == {[r |-> 2, c |-> 2, m |-> <<<<"1", "0.5">>, <<"-0.75", "1.5">>>>], [r |-> 1, c |-> 2, m |-> <<<<"0.4", "0.9">>>>]}
Hot(r) == {[r |-> r, c |-> 2, m |-> [i \in 1 .. r |-> IF f[i] = 1 THEN <<"1", "0">> ELSE <<"0", "1">>]] : f \in [1 .. r -> {1, 2}]}
WSub == IF Pars = "few" THEN {CHOOSE w \in W1s : w.m[1][1] = "0.7"} ELSE W1s

Fwd(st, x) == [st EXCEPT !.lay = [k \in 1 .. Depth(st) |-> LET Z == MCanon(Pre(st.lay[k], IF k = 1 THEN x ELSE Forward(st.lay[1], x)))
                                                       IN [st.lay[k] EXCEPT !.z = Z, !.f = IF @ = None /\ st.lay[k].kind = "dropout" THEN MCanon(Ones(Z.r, Z.c)) ELSE None]]]
Init == /\ \E k1, k2 \in KindPars, w \in WSub, v \in W1s, ls \in LossKinds :
             s = [ModelStart EXCEPT !.lay = <<Lay(k1, w), Lay(k2, v)>>, !.loss = [kind |-> ls, size |-> 2, id |-> 1]]
        /\ X \in XS
        /\ Y \in Hot(X.r)
Next == UNCHANGED mvars

\* What is differentiated: mean over the batch, or the sum of the samples' own losses.
RowOf(A, i) == [r |-> 1, c |-> A.c, m |-> <<A.m[i]>>]
Target(st) ==
  LET P == Infer(st, X).y
      k == st.loss.kind
  IN  IF k \in {"ce", "bce"} THEN LossValue(k, P, Y) ELSE NSum(P.r, LAMBDA i : LossValue(k, RowOf(P, i), RowOf(Y, i)))
H == NLit("1e-5")
Bump(A, i, j, h) == [A EXCEPT !.m[i][j] = FStr(NAdd(@, h))]
Quot(F(_)) == NDiv(NSub(F(H), F(NNeg(H))), NMul(NInt(2), H))
QuotW(k, i, j) == Quot(LAMBDA h : Target([s EXCEPT !.lay[k].W = Bump(s.lay[k].W, i, j, h)]))
QuotB(k, j) == Quot(LAMBDA h : Target([s EXCEPT !.lay[k].B = Bump(s.lay[k].B, 1, j, h)]))

Outs == LET A == Forward(s.lay[1], X) IN <<X, A, Forward(s.lay[2], A)>>
Quots(k) == [w |-> Mat(2, 2, LAMBDA i, j : QuotW(k, i, j)), b |-> Mat(1, 2, LAMBDA i, j : QuotB(k, j))]
\* Near a kink of an activation, of the absolute loss or of clipping, a difference quotient is no derivative.
NearZero(A) == \E i \in 1 .. A.r, j \in 1 .. A.c : NLt(NAbs(A.m[i][j]), NLit("2e-3"))
Kinky ==
  \/ \E k \in 1 .. 2 : s.lay[k].kind \in {"hidden", "leaky", "dropout"} /\ NearZero(Pre(s.lay[k], Outs[k]))
  \/ s.loss.kind = "mae" /\ NearZero(MSub(Outs[3], Y))
  \/ s.loss.kind \in {"ce", "bce"} /\ \E i \in 1 .. Y.r, j \in 1 .. 2 : NLt(Outs[3].m[i][j], NLit("1e-2")) \/ NLt(NLit("0.99"), Outs[3].m[i][j])

\* BackwardOK, with the tolerance of difference quotients.
GradsOf(st) ==
  LET d == Depth(st)
      P == Outs[3]
      G2 == IF FusedLast(st) THEN FusedGrad(P, Y) ELSE LayerGrad(st.lay[2], LossGrad(st.loss.kind, P, Y))
      G1 == LayerGrad(st.lay[1], GradX(st.lay[2], G2))
  IN  <<[w |-> GradW(X, G1), b |-> GradB(G1)], [w |-> GradW(Outs[2], G2), b |-> GradB(G2)]>>
ChainIsDerivative ==
  Kinky \/
  LET st == Fwd(s, X)
      G == GradsOf(st)
      Q == <<Quots(1), Quots(2)>>
  IN  \A k \in 1 .. 2 : MClose1(G[k].w, Q[k].w, NLit("2e-6")) /\ MClose1(G[k].b, Q[k].b, NLit("2e-6"))
\* BackwardOK accepts these gradients, and not the ones in the opposite order or without the factor of the loss.
Accepts ==
  LET st == Fwd(s, X)
      G == GradsOf(st)
      Ev(a, b) == [outs |-> Outs, y |-> Y, dws |-> <<a.w, b.w>>, dbs |-> <<a.b, b.b>>]
      wrong == MMulS(G[2].w, NInt(2))
  IN  /\ BackwardOK(st, Ev(G[2], G[1]))
      /\ ~NearZero(G[2].w) => ~BackwardOK(st, [Ev(G[2], G[1]) EXCEPT !.dws[1] = wrong])
\* Samples do not influence each other, layers compose, and predictions score as the metrics say.
RowsIndependent == \A i \in 1 .. X.r : MClose1(Infer(s, RowOf(X, i)).y, RowOf(Infer(s, X).y, i), NLit("1e-12"))
Composes == MSame(Infer(s, X).y, Outs[3]) /\ FwdAllOK(s, [x |-> X, tr |-> FALSE, outs |-> Outs])
Scores ==
  \A a \in 0 .. 2 :
    LET st == [s EXCEPT !.acc = a, !.prec = "0.25"]
        P == Outs[3]
        R == CASE a = 0 -> P [] a = 1 -> ArgMaxes(P) [] a = 2 -> Binary(P)
        v == Accuracy(AccKinds[a + 1], P, Y, st.prec)
    IN  /\ PredOK(st, [x |-> X, res |-> R])
        /\ AccOK(st, [x |-> X, y |-> Y, val |-> v])
        /\ ~AccOK(st, [x |-> X, y |-> Y, val |-> NAdd(v, Fraction(1, 4))])
        /\ a = 1 => NEq(v, Fraction(CountIf(X.r, LAMBDA i : NEq(Y.m[i][NTrunc(R.m[i][1]) + 1], N1)), X.r))
        /\ a = 2 => NEq(v, Fraction(CountCells(P, LAMBDA i, j : NEq(R.m[i][j], Y.m[i][j])), 2 * X.r))
=============================================================================
