----------------------------- MODULE InitModel -----------------------------
(* C26.  The constants that LayerSM judges initializations by, derived from  *)
(* the density of the standard normal distribution by Simpson's rule, and    *)
(* what the bounds tell apart: other distributions of the same variance, or  *)
(* other variances, lie outside of them.                                     *)
EXTENDS LayerSM, Float64

CONSTANTS Steps         \* even number of intervals
VARIABLES what
Init == what \in {"mass", "1", "2", "3", "0.25", "square", "fourth", "sixth"}
Next == UNCHANGED what

Density(x) == NMul(NExp(NDiv(NMul(x, x), NInt(-2))), NLit("0.3989422804014327"))
Integral(f(_), a, b) ==
  LET h == NDiv(NSub(b, a), NInt(Steps))
      at(k) == f(NAdd(a, NMul(NInt(k), h)))
  IN  NMul(NDiv(h, NInt(3)), NSum(Steps + 1, LAMBDA k : NMul(NInt(IF k \in {1, Steps + 1} THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2), at(k - 1))))
Moment(p) == Integral(LAMBDA x : NMul(Density(x), NPow(x, NInt(p))), "-12", "12")
Within(a) == Integral(Density, NNeg(a), a)
Is(a, b) == NClose(a, b, NLit("1e-9"), N1)

Constants ==
  CASE what = "mass" -> Is(Moment(0), N1) /\ Is(Moment(1), N0)
    [] what = "square" -> Is(Moment(2), N1)
    [] what = "fourth" -> Is(Moment(4), NInt(3))         \* the variance of a square is 3 - 1
    [] what = "sixth" -> Is(Moment(6), NInt(15))         \* the variance of a cube; LayerSM allows 20
    [] what \in DOMAIN Inside -> Is(Within(what), NLit(Inside[what]))

\* Other distributions of mean 0 and variance 1: share within 1/4, 1, 2, 3 standard deviations.
Others == {
  [name |-> "uniform", in |-> ("0.25" :> "0.14433756729740643" @@ "1" :> "0.5773502691896257" @@ "2" :> "1" @@ "3" :> "1")],
  [name |-> "laplace", in |-> ("0.25" :> "0.29781149867344" @@ "1" :> "0.75688326556579" @@ "2" :> "0.94089442344" @@ "3" :> "0.98563")],
  [name |-> "logistic", in |-> ("0.25" :> "0.22295" @@ "1" :> "0.71970" @@ "2" :> "0.94824" @@ "3" :> "0.99136")],
  [name |-> "two values", in |-> ("0.25" :> "0" @@ "1" :> "0" @@ "2" :> "1" @@ "3" :> "1")]}
Count(n, q) == NTrunc(NMul(NInt(n), q))
Outside(n, in) == \E k \in DOMAIN Inside : ~Binomial(n, Count(n, in[k]), NLit(Inside[k]))
Tells == what = "mass" => \A o \in Others : Outside(6000, o.in)
\* Variances that are off by a quarter, standard deviations taken for variances, uniform noise of the wrong width.
Scales == what = "mass" => \A v \in {"0.8", "1.25", "0.5", "2", "4"} : ~Near(NMul(NInt(6000), v), NInt(6000), NInt(12000))
Takes == what = "mass" => Near("6000", NInt(6000), NInt(12000)) /\ \A k \in DOMAIN Inside : Binomial(6000, Count(6000, Inside[k]), NLit(Inside[k]))
=============================================================================
