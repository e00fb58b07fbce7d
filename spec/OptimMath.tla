------------------------------ MODULE OptimMath ------------------------------
(* C09, C10.  The recursive update rules of Optim.tla agree with closed     *)
(* forms over the whole history of gradients; two optimizers that are used  *)
(* alternately behave as each would alone.                                  *)
EXTENDS Optim, Float64
CONSTANTS Depth
VARIABLES o, g, w, o2, w2, g2
mvars == <<o, g, w, o2, w2, g2>>

Gs == {"1", "-0.5", "0.25"}
H(rate, decay, mom, b1, b2) == [rate |-> rate, decay |-> decay, mom |-> mom, eps |-> "1e-7", b1 |-> b1, b2 |-> b2]
Hypers == {<<"sgd", H("0.5", d, m, "0", "0")>> : d \in {"0", "0.25"}, m \in {"0", "0.5", "0.9"}}
     \cup {<<"adam", H("0.5", d, "0", b, c)>> : d \in {"0", "0.25"}, b \in {"0.9", "0.5", "0"}, c \in {"0.999", "0.5"}}
One(x) == [r |-> 1, c |-> 1, m |-> <<<<x>>>>]
Val(A) == A.m[1][1]
Apply(op, W, x) == LET n == OptNext(op, One(x), One(x)) IN <<n, MCanon(MSub(W, Deltas(op, n, One(x), One(x)).w))>>

Init == /\ \E h \in Hypers : o = Optimizer(h[1], h[2])
        /\ o2 = Optimizer("sgd", H("0.25", "0.5", "0.5", "0", "0"))
        /\ g = <<>> /\ g2 = <<>> /\ w = One("1") /\ w2 = One("1")
First(x) == /\ Len(g) < Depth
            /\ LET a == Apply(o, w, x) IN o' = a[1] /\ w' = a[2]
            /\ g' = Append(g, x) /\ UNCHANGED <<o2, w2, g2>>
Second(x) == /\ Len(g2) < 1
             /\ LET a == Apply(o2, w2, x) IN o2' = a[1] /\ w2' = a[2]
             /\ g2' = Append(g2, x) /\ UNCHANGED <<o, w, g>>
Next == \E x \in Gs : First(x) \/ Second(x)

Rate(k) == NDiv(o.rate, NAdd(N1, NMul(o.decay, NInt(k - 1))))   \* of the k-th update
Tol == NLit("1e-12")
\* v_n = - sum over i of mom^(n-i) rate_i g_i, and so on, without recursion.
SgdClosed ==
  LET n == Len(g)
      V(k) == NSum(k, LAMBDA i : NNeg(NMul(NPow(o.mom, NInt(k - i)), NMul(Rate(i), NLit(g[i])))))
  IN  NAdd(N1, NSum(n, V))
AdamClosed ==
  LET n == Len(g)
      M(k) == NMul(NSub(N1, o.b1), NSum(k, LAMBDA i : NMul(NPow(o.b1, NInt(k - i)), NLit(g[i]))))
      Q(k) == NMul(NSub(N1, o.b2), NSum(k, LAMBDA i : NMul(NPow(o.b2, NInt(k - i)), NMul(NLit(g[i]), NLit(g[i])))))
      Step(k) == NDiv(NMul(Rate(k), NDiv(M(k), NSub(N1, NPow(o.b1, NInt(k))))), NAdd(NSqrt(NDiv(Q(k), NSub(N1, NPow(o.b2, NInt(k))))), o.eps))
  IN  NSub(N1, NSum(n, Step))
ClosedForm == NClose(Val(w), IF o.kind = "sgd" THEN SgdClosed ELSE AdamClosed, Tol, NInt(4))
\* The first adam step goes rate along the sign of the gradient, whatever its size.
FirstStep == (o.kind = "adam" /\ Len(g) = 1) =>
   NClose(NSub(N1, Val(w)), NMul(o.rate, IF NLt(NLit(g[1]), N0) THEN NNeg(N1) ELSE N1), NLit("1e-5"), N1)
\* Momentum 0 and decay 0: a plain step of rate times gradient.
Plain == (o.kind = "sgd" /\ NEq(o.mom, N0) /\ NEq(o.decay, N0)) => NClose(Val(w), NSub(N1, NMul(o.rate, NSum(Len(g), LAMBDA i : NLit(g[i])))), Tol, NInt(4))
\* The other optimizer knows nothing of this one.
Apart == NClose(Val(w2), IF g2 = <<>> THEN N1 ELSE NSub(N1, NMul(NLit("0.25"), NLit(g2[1]))), Tol, N1)
Counts == o.t = Len(g) /\ o2.t = Len(g2)
=============================================================================
