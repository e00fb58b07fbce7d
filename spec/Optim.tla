------------------------------- MODULE Optim -------------------------------
(* Optimizers.  An optimizer is a record                                    *)
(*   kind, rate, decay            always                                    *)
(*   mom                          sgd                                       *)
(*   eps, b1, b2                  adam                                      *)
(*   t                            number of updates that succeeded          *)
(*   mw, mb                       velocities (sgd) or first moments (adam)  *)
(*   vw, vb                       second moments (adam)                     *)
(*   aw, ab                       size of the terms summed up in mw, mb     *)
EXTENDS Mat

NoMat == [r |-> 0, c |-> 0, m |-> <<>>]

NewOptValid(kind, rate, decay, mom) ==
  /\ NLt(N0, rate) /\ ~NLt(decay, N0)
  /\ kind = "sgd" => ~NLt(mom, N0)

Optimizer(kind, h) ==
  [kind |-> kind, rate |-> h.rate, decay |-> h.decay, mom |-> h.mom, eps |-> h.eps, b1 |-> h.b1, b2 |-> h.b2,
   t |-> 0, mw |-> NoMat, mb |-> NoMat, vw |-> NoMat, vb |-> NoMat, aw |-> NoMat, ab |-> NoMat]

\* Does the optimizer keep something of the shape of the parameters?
KeepsState(o) == o.kind = "adam" \/ ~NEq(o.mom, N0)
GradsFit(W, B, dW, dB) == SameShape(W, dW) /\ SameShape(B, dB)
StateFits(o, W, B) == o.mw = NoMat \/ (SameShape(o.mw, W) /\ SameShape(o.mb, B))

RateNow(o) == NDiv(o.rate, NAdd(N1, NMul(o.decay, NInt(o.t))))
OrZero(A, S) == IF A = NoMat THEN Zeros(S.r, S.c) ELSE A

\* One component (weights or biases): p parameters, g gradients.
SgdV(o, m, g) == MZip(OrZero(m, g), g, LAMBDA a, x : NSub(NMul(o.mom, a), NMul(RateNow(o), x)))
SgdA(o, a, g) == MZip(OrZero(a, g), g, LAMBDA s, x : NAdd(NMul(o.mom, s), NMul(RateNow(o), NAbs(x))))
AdamM(o, m, g) == MZip(OrZero(m, g), g, LAMBDA a, x : NAdd(NMul(o.b1, a), NMul(NSub(N1, o.b1), x)))
AdamA(o, a, g) == MZip(OrZero(a, g), g, LAMBDA s, x : NAdd(NMul(NAbs(o.b1), s), NMul(NAbs(NSub(N1, o.b1)), NAbs(x))))
AdamV(o, v, g) == MZip(OrZero(v, g), g, LAMBDA a, x : NAdd(NMul(o.b2, a), NMul(NSub(N1, o.b2), NMul(x, x))))

Corr(b, t) == NSub(N1, NPow(b, NInt(t)))
\* What adam subtracts, from first moments m and second moments v.
AdamStep(o, m, v) ==
  LET r == RateNow(o)
      c1 == Corr(o.b1, o.t + 1)
      c2 == Corr(o.b2, o.t + 1)
  IN  MZip(m, v, LAMBDA a, b : NDiv(NMul(r, NDiv(a, c1)), NAdd(NSqrt(NDiv(b, c2)), o.eps)))

\* The optimizer after one update with these gradients.
OptNext(o, dW, dB) ==
  IF o.kind = "sgd"
  THEN [o EXCEPT !.t = @ + 1,
          !.mw = IF KeepsState(o) THEN MCanon(SgdV(o, @, dW)) ELSE @,
          !.mb = IF KeepsState(o) THEN MCanon(SgdV(o, @, dB)) ELSE @,
          !.aw = IF KeepsState(o) THEN MCanon(SgdA(o, @, dW)) ELSE @,
          !.ab = IF KeepsState(o) THEN MCanon(SgdA(o, @, dB)) ELSE @]
  ELSE [o EXCEPT !.t = @ + 1,
          !.mw = MCanon(AdamM(o, @, dW)), !.mb = MCanon(AdamM(o, @, dB)),
          !.aw = MCanon(AdamA(o, @, dW)), !.ab = MCanon(AdamA(o, @, dB)),
          !.vw = MCanon(AdamV(o, @, dW)), !.vb = MCanon(AdamV(o, @, dB))]

\* What that update subtracts from weights and biases, and the size of its terms.
\* n is OptNext(o, dW, dB).
Deltas(o, n, dW, dB) ==
  CASE o.kind = "sgd" /\ KeepsState(o) -> [w |-> MNeg(n.mw), b |-> MNeg(n.mb), sw |-> n.aw, sb |-> n.ab]
    [] o.kind = "sgd" -> LET w == MMulS(dW, RateNow(o))
                             b == MMulS(dB, RateNow(o))
                         IN  [w |-> w, b |-> b, sw |-> MAbs(w), sb |-> MAbs(b)]
    [] OTHER -> [w |-> AdamStep(o, n.mw, n.vw), b |-> AdamStep(o, n.mb, n.vb),
                 sw |-> MAbs(AdamStep(o, n.aw, n.vw)), sb |-> MAbs(AdamStep(o, n.ab, n.vb))]
=============================================================================
