------------------------------ MODULE ActMath ------------------------------
(* C29.  The activation functions of Layers.tla as functions of numbers: the *)
(* gradient functions are their derivatives, their values lie where they     *)
(* should and grow with the argument, softmax ignores a shift of a row.      *)
EXTENDS FnSM, Float64

VARIABLES z, w, s, d
avars == <<z, w, s, d>>
Zs == {"-800", "-37.5", "-3", "-0.5", "0", "1e-7", "0.5", "1", "3", "37.5", "800"}
Init == z \in Zs /\ w \in Zs /\ s \in {"0", "0.25", "1", "2"} /\ d \in {"-2", "0", "1"}
Next == UNCHANGED avars

One(x) == [r |-> 1, c |-> 1, m |-> <<<<x>>>>]
At(fn, x) == ActValue(fn, One(x), One(x), s).m[1][1]
H == NLit("1e-5")
Slope(fn) == NDiv(NSub(At(fn, NAdd(z, H)), At(fn, NSub(z, H))), NMul(NInt(2), H))
Deriv(fn) == IF fn = "sigmoidp" THEN ActValue(fn, One(z), One(d), s).m[1][1] ELSE ActValue(fn, One(d), One(z), s).m[1][1]
Near(a, b) == NClose(a, b, NLit("1e-6"), N1)
Derivatives ==
  /\ z \notin {"0", "1e-7"} => /\ Near(Deriv("relup"), NMul(d, Slope("relu")))
                              /\ Near(Deriv("leakyp"), NMul(d, Slope("leaky")))
  /\ Near(Deriv("sigmoidp"), NMul(d, Slope("sigmoid")))
  /\ z = "0" => Near(Deriv("relup"), N0) /\ Near(Deriv("leakyp"), d)
In(x, lo, hi) == NLe(lo, x) /\ NLe(x, hi)
Ranges == /\ NLe(N0, At("relu", z)) /\ NLe(z, At("relu", z))
          /\ In(At("sigmoid", z), N0, N1) /\ In(At("clip", z), PLow, PHigh)
          /\ Near(NAdd(At("sigmoid", z), At("sigmoid", NNeg(z))), N1)
Monotone == NLt(z, w) => \A fn \in {"relu", "leaky", "sigmoid", "clip"} : NLe(At(fn, z), At(fn, w))
Row(x, y) == [r |-> 1, c |-> 2, m |-> <<<<x, y>>>>]
Softmaxes == LET P == ActValue("softmax", Row(z, w), One(z), s)
             IN  /\ RowsSumToOne(P)
                 /\ Near(P.m[1][1], At("sigmoid", NSub(z, w)))
                 /\ MClose1(ActValue("softmax", Row(NAdd(z, d), NAdd(w, d)), One(z), s), P, NLit("1e-9"))
=============================================================================
