----------------------------- MODULE DropModel -----------------------------
(* C06.  Every draw of a small dropout layer.  What LayerSM accepts as a     *)
(* training pass are exactly the outcomes of draws; on average they are the  *)
(* ReLU; the backward definition is the derivative of the pass with that     *)
(* draw; and the bounds on counts miss a correct layer practically never.    *)
EXTENDS LayerSM, Float64

CONSTANTS Trials        \* numbers of trials for which the bounds are computed
VARIABLES l, X, K       \* a layer, its input, which units are kept
dvars == <<l, X, K>>

Rates == {"0", "0.25", "0.5", "0.8", "1"}
Ws == {[r |-> 1, c |-> 2, m |-> <<<<a, b>>>>] : a \in {"2", "-1"}, b \in {"0.5", "-3", "0"}}
Init == /\ l \in {[kind |-> "dropout", in |-> 1, out |-> 2, par |-> q, W |-> w, B |-> [r |-> 1, c |-> 2, m |-> <<<<"0.25", "-0.5">>>>], z |-> None, f |-> None] : q \in Rates, w \in Ws}
        /\ X \in {[r |-> 2, c |-> 1, m |-> <<<<"1">>, <<x>>>>] : x \in {"-2", "3"}}
        /\ K \in [1 .. 2 -> [1 .. 2 -> BOOLEAN]]
Next == UNCHANGED dvars

\* The draw K, given that rate 0 keeps and rate 1 drops everything.
Possible == (NEq(l.par, N0) => \A i, j \in 1 .. 2 : K[i][j]) /\ (NEq(l.par, N1) => \A i, j \in 1 .. 2 : ~K[i][j])
Factor(i, j) == IF K[i][j] THEN NDiv(N1, Keep(l)) ELSE N0
R == MMap(Pre(l, X), Relu)
Out(x) == LET A == MMap(Pre(l, x), Relu) IN Mat(2, 2, LAMBDA i, j : NMul(A.m[i][j], Factor(i, j)))
Y == TLCEval(MCanon(Out(X)))

Possibles == Possible => DropOK(l, X, Y)
\* A kept unit that is not rescaled, a dropped one that leaks, or an impossible draw is noticed.
Alive(i, j) == NLt(N0, R.m[i][j])
Noticed ==
  Possible => \A i, j \in 1 .. 2 :
    Alive(i, j) =>
      /\ ~DropOK(l, X, [Y EXCEPT !.m[i][j] = FStr(NMul(R.m[i][j], NLit("0.1")))])
      /\ ~NEq(l.par, N0) => ~DropOK(l, X, [Y EXCEPT !.m[i][j] = FStr(R.m[i][j])])
      /\ NEq(l.par, N0) => ~DropOK(l, X, [Y EXCEPT !.m[i][j] = "0"])
\* On average over the draws: keep * (z / keep) = z.
Unbiased == ~NEq(l.par, N1) => \A i, j \in 1 .. 2 : NClose(NMul(Keep(l), NDiv(R.m[i][j], Keep(l))), R.m[i][j], NLit("1e-12"), N1)
\* The factors recovered from the output explain the backward pass.
U == [r |-> 2, c |-> 2, m |-> <<<<"1", "-2">>, <<"0.5", "3">>>>]
Obj(x) == LET O == Out(x) IN NSum(2, LAMBDA i : NSum(2, LAMBDA j : NMul(O.m[i][j], U.m[i][j])))
H == "0.0009765625"
Derivative ==
  Possible =>
    LET Z == Pre(l, X)
        G == PreGradMask(Z, U, DropFactors(l, X, Y))
        D == GradX(l, G)
    IN  (\A i, j \in 1 .. 2 : ~NClose(Z.m[i][j], N0, NLit("0.01"), N1)) =>
          \A i \in 1 .. 2 : NClose(D.m[i][1], NDiv(NSub(Obj([X EXCEPT !.m[i][1] = FStr(NAdd(@, H))]), Obj([X EXCEPT !.m[i][1] = FStr(NSub(@, H))])), NMul(NInt(2), H)), NLit("1e-9"), N1)

\* Probability that n fair trials fall outside the bounds: the binomial distribution summed up.
LnFact == TLCEval([k \in 0 .. 400 |-> NSum(k, LAMBDA i : NLn(NInt(i)))])
Pmf(n, k, q) == NExp(NAdd(NSub(NSub(LnFact[n], LnFact[k]), LnFact[n - k]), NAdd(NMul(NInt(k), NLn(q)), NMul(NInt(n - k), NLn(NSub(N1, q))))))
MissProb(n, q) == NSum(n + 1, LAMBDA k : IF Binomial(n, k - 1, q) THEN N0 ELSE Pmf(n, k - 1, q))
Wide == {"0.001", "0.01", "0.1", "0.25", "0.5", "0.8", "0.99"}
Bounds ==
  (X.m[2][1] = "3" /\ l.par = "0" /\ l.W.m[1] = <<"2", "0.5">> /\ K = [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> TRUE]]) =>
    \A n \in Trials, q \in Wide : NLt(MissProb(n, q), NLit("1e-6")) /\ (n >= 100 => NLt(MissProb(n, q), NLit("3e-8")))
\* Counts that the bounds must not take for the configured rate.
Powerful == \A q \in {"0.5", "0.2"} : ~Binomial(40000, 40000 - 100, q) /\ ~Binomial(40000, 0, q) /\ ~Binomial(40000, 40000, q) /\ ~Binomial(40000, NTrunc(NMul(NInt(40000), NMul(q, NLit("1.08")))), q)
=============================================================================
