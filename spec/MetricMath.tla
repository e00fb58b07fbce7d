----------------------------- MODULE MetricMath -----------------------------
(* C23, C24.  Exhaustive over small predictions and labels, exact rationals. *)
EXTENDS Losses, Rat
CONSTANTS K
VARIABLES P, Y
mvars == <<P, Y>>
Vals == {<<-1, 1>>, <<0, 1>>, <<1, 4>>, <<1, 2>>}
HalfLit == <<1, 2>>
Rows3 == [1 .. K -> Vals]
HotRow(c) == [j \in 1 .. K |-> IF j = c THEN N1 ELSE N0]
Init == /\ P \in [r : {2}, c : {K}, m : [1 .. 2 -> Rows3]]
        /\ Y \in {[r |-> 2, c |-> K, m |-> <<HotRow(a), HotRow(b)>>] : a \in 1 .. K, b \in 1 .. K}
Next == UNCHANGED mvars

InUnit(x) == ~NLt(x, N0) /\ ~NLt(N1, x)
Unit == \A k \in {"regression", "categorical", "binary"} : InUnit(Accuracy(k, P, Y, <<1, 1>>))
ArgMaxIsLargest == \A i \in 1 .. 2 :
  LET a == ArgMax(P.m[i]) + 1 IN /\ \A j \in 1 .. K : ~NLt(P.m[i][a], P.m[i][j])
                                 /\ \A j \in 1 .. a - 1 : NLt(P.m[i][j], P.m[i][a])
RoundTrip == ArgMaxes(OneHot(ArgMaxes(P), K)) = ArgMaxes(P) /\ IsOneHot(OneHot(ArgMaxes(P), K))
PerfectScores == Accuracy("categorical", Y, Y, N0) = N1 /\ Accuracy("regression", Y, Y, <<1, 8>>) = N1 /\ Accuracy("regression", P, P, N0) = N0
\* Shifting a row does not change its largest index.
ShiftInvariant == ArgMaxes(MAddS(P, <<-5, 1>>)) = ArgMaxes(P)
\* Categorical accuracy 1 means: encoding the predictions gives the labels.
Meaning == (Accuracy("categorical", P, Y, N0) = N1) <=> (OneHot(ArgMaxes(P), K) = Y)
BinaryMeaning == (Accuracy("binary", P, Y, N0) = N1) <=> (Binary(P) = Y)
=============================================================================
