----------------------------- MODULE PastProof -----------------------------
(* C05, for any number of calls with arguments of any sizes: what a layer   *)
(* remembers is its most recent accepted forward pass since it was made or  *)
(* loaded; calls that are refused, and backward passes, change nothing; so  *)
(* whether a backward pass is accepted does not depend on them, and only    *)
(* ones that fit that forward pass are.  Proved with tlapm.                 *)
EXTENDS Past, Naturals, Sequences, SequenceTheorems, TLAPS

CONSTANTS Inputs, Outputs
ASSUME Sizes == Inputs \in Nat /\ Outputs \in Nat
VARIABLES past, calls

\* A call: its kind, how it ended, rows and columns of its input and of its upstream gradient.
Call == [op : {"fwd", "nodrop", "bwd", "bce", "reload", "init"}, st : {"ok", "err"}, xr : Nat \ {0}, xc : Nat, dr : Nat \ {0}, dc : Nat]
Fits(e) == e.xc = Inputs
Pass(e) == e.op \in Passes /\ e.st = "ok" /\ Fits(e)
Load(e) == e.op = "reload" /\ e.st = "ok"

\* Backward passes through a layer with a nonlinear activation.
Accept(p, e) == e.xc = Inputs /\ e.dc = Outputs /\ e.xr = e.dr /\ p # 0 /\ p = e.dr

Init == past = 0 /\ calls = <<>>
Next == \E e \in Call : calls' = Append(calls, e) /\ past' = PastAfter(past, e, Fits(e), e.xr, 0)
Spec == Init /\ [][Next]_<<past, calls>>

TypeOK == past \in Nat /\ calls \in Seq(Call)
\* Call k is the last one of all that counts.
Last(k) == k \in 1 .. Len(calls) /\ \A q \in 1 .. Len(calls) : q > k => ~Pass(calls[q]) /\ ~Load(calls[q])
Latest ==
  IF past = 0
  THEN \A k \in 1 .. Len(calls) : Pass(calls[k]) => \E q \in 1 .. Len(calls) : q > k /\ Load(calls[q])
  ELSE \E k \in 1 .. Len(calls) : Last(k) /\ Pass(calls[k]) /\ calls[k].xr = past

THEOREM Remembers == Spec => [](TypeOK /\ Latest)
<1>1. Init => TypeOK /\ Latest BY DEF Init, TypeOK, Latest
<1>2. TypeOK /\ Latest /\ [Next]_<<past, calls>> => TypeOK' /\ Latest'
  <2> SUFFICES ASSUME TypeOK, Latest, [Next]_<<past, calls>> PROVE TypeOK' /\ Latest' OBVIOUS
  <2>1. CASE UNCHANGED <<past, calls>> BY <2>1 DEF TypeOK, Latest, Last
  <2>2. CASE Next
    <3>1. PICK e \in Call : calls' = Append(calls, e) /\ past' = PastAfter(past, e, Fits(e), e.xr, 0) BY <2>2 DEF Next
    <3> DEFINE n == Len(calls)
    <3>2. n \in Nat /\ Len(calls') = n + 1 /\ calls'[n + 1] = e /\ \A k \in 1 .. n : calls'[k] = calls[k] BY <3>1 DEF TypeOK
    <3>3. calls' \in Seq(Call) BY <3>1 DEF TypeOK
    <3>4. e.xr \in Nat \ {0} BY DEF Call
    <3>5. past' \in Nat BY <3>1, <3>4 DEF PastAfter, TypeOK
    <3> HIDE DEF n
    <3>6. CASE Load(e)
      <4>1. past' = 0 BY <3>1, <3>6 DEF PastAfter, Load
      <4>2. ~Pass(e) BY <3>6 DEF Pass, Load, Passes
      <4>3. \A k \in 1 .. n + 1 : Pass(calls'[k]) => k < n + 1 BY <3>2, <4>2
      <4> QED BY <3>2, <3>3, <3>6, <4>1, <4>3 DEF Latest, TypeOK
    <3>7. CASE Pass(e)
      <4>1. past' = e.xr BY <3>1, <3>7 DEF PastAfter, Pass, Passes
      <4>2. PICK z \in Nat : z = n + 1 BY <3>2
      <4>3. z \in 1 .. Len(calls') /\ calls'[z] = e /\ \A q \in 1 .. Len(calls') : ~(q > z) BY <3>2, <4>2
      <4>4. Last(z)' BY <4>3 DEF Last
      <4>5. Pass(calls'[z]) /\ calls'[z].xr = past' BY <3>7, <4>1, <4>3
      <4>6. past' # 0 BY <3>4, <4>1
      <4>7. Latest' BY <4>3, <4>4, <4>5, <4>6 DEF Latest
      <4> QED BY <3>3, <3>5, <4>7 DEF TypeOK
    <3>8. CASE ~Load(e) /\ ~Pass(e)
      <4>1. past' = past BY <3>1, <3>8 DEF PastAfter, Pass, Load
      <4>2. CASE past = 0
        <5>1. \A k \in 1 .. n + 1 : Pass(calls'[k]) => k \in 1 .. n BY <3>2, <3>8
        <5>2. \A k \in 1 .. n : Pass(calls[k]) => \E q \in 1 .. n : q > k /\ Load(calls[q]) BY <4>2 DEF Latest, n
        <5>3. \A k \in 1 .. n + 1 : Pass(calls'[k]) => \E q \in 1 .. n + 1 : q > k /\ Load(calls'[q]) BY <5>1, <5>2, <3>2
        <5> QED BY <3>2, <3>3, <4>1, <4>2, <5>3 DEF Latest, TypeOK
      <4>3. CASE past # 0
        <5>1. PICK k \in 1 .. n : Last(k) /\ Pass(calls[k]) /\ calls[k].xr = past BY <4>3 DEF Latest, n
        <5>2. \A q \in 1 .. n : q > k => ~Pass(calls[q]) /\ ~Load(calls[q]) BY <5>1 DEF Last, n
        <5>3. \A q \in 1 .. n + 1 : q > k => ~Pass(calls'[q]) /\ ~Load(calls'[q])
          <6> TAKE q \in 1 .. n + 1
          <6>1. CASE q = n + 1 BY <6>1, <3>2, <3>8
          <6>2. CASE q \in 1 .. n BY <6>2, <3>2, <5>2
          <6> QED BY <6>1, <6>2, <3>2
        <5>4. k \in 1 .. n + 1 BY <3>2
        <5>5. Last(k)' BY <5>3, <5>4, <3>2 DEF Last
        <5>6. Pass(calls'[k]) /\ calls'[k].xr = past' BY <5>1, <3>2, <4>1
        <5> QED BY <3>2, <3>5, <3>3, <4>1, <4>3, <5>4, <5>5, <5>6 DEF Latest, TypeOK
      <4> QED BY <4>2, <4>3
    <3> QED BY <3>6, <3>7, <3>8
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* A call that is refused, and a backward pass, are as if they had not been made.
THEOREM NoTrace ==
  ASSUME NEW p, NEW e, NEW fits, NEW now, NEW none, e.st # "ok" \/ e.op \notin Passes \cup {"reload"}
  PROVE  PastAfter(p, e, fits, now, none) = p
BY DEF PastAfter

\* An accepted backward pass fits the forward pass that is remembered: one that was made.
THEOREM Fitting ==
  ASSUME NEW e \in Call, TypeOK, Latest, Accept(past, e)
  PROVE  /\ e.xc = Inputs /\ e.dc = Outputs /\ e.xr = e.dr
         /\ \E k \in 1 .. Len(calls) : Last(k) /\ Pass(calls[k]) /\ calls[k].xr = e.dr
BY DEF Accept, Latest
=============================================================================
