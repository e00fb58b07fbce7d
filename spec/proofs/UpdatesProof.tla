---------------------------- MODULE UpdatesProof ----------------------------
(* C11, for any optimizers, parameters and histories: an update that is      *)
(* refused leaves everything as it was, one that is accepted touches one     *)
(* optimizer and one pair of parameters, and updates by different            *)
(* optimizers of different parameters can change places, so that what an     *)
(* optimizer does depends on its own accepted updates only.                  *)
(* Proved with tlapm.                                                        *)
EXTENDS Updates, TLAPS

Names(s, e) == e.o \in DOMAIN s.o /\ e.p \in DOMAIN s.p
State(s) == s = [o |-> s.o, p |-> s.p] /\ s.o = [x \in DOMAIN s.o |-> s.o[x]] /\ s.p = [x \in DOMAIN s.p |-> s.p[x]]
Accepted(s, e, Ok(_, _, _)) == e.st = "ok" /\ Ok(s.o[e.o], s.p[e.p], e)

THEOREM Refused ==
  ASSUME NEW Ok(_, _, _), NEW Step(_, _), NEW s, NEW e, ~Accepted(s, e, Ok)
  PROVE  UpdateOf(s, e, Ok, Step) = s
BY DEF UpdateOf, Accepted

THEOREM OnlyItsOwn ==
  ASSUME NEW Ok(_, _, _), NEW Step(_, _), NEW s, NEW e, State(s), Names(s, e)
  PROVE  LET n == UpdateOf(s, e, Ok, Step)
         IN  /\ \A x \in DOMAIN s.o : x # e.o => n.o[x] = s.o[x]
             /\ \A x \in DOMAIN s.p : x # e.p => n.p[x] = s.p[x]
             /\ DOMAIN n.o = DOMAIN s.o /\ DOMAIN n.p = DOMAIN s.p
             /\ State(n)
<1>1. CASE ~Accepted(s, e, Ok) BY <1>1, Refused
<1>2. CASE Accepted(s, e, Ok)
  <2> DEFINE n == UpdateOf(s, e, Ok, Step)
  <2>1. n = [o |-> [s.o EXCEPT ![e.o] = Step(@, e)], p |-> [s.p EXCEPT ![e.p] = [W |-> e.W, B |-> e.B]]] BY <1>2 DEF UpdateOf, Accepted
  <2> HIDE DEF n
  <2>2. n.o = [s.o EXCEPT ![e.o] = Step(@, e)] /\ n.p = [s.p EXCEPT ![e.p] = [W |-> e.W, B |-> e.B]] BY <2>1
  <2>3. DOMAIN n.o = DOMAIN s.o /\ DOMAIN n.p = DOMAIN s.p BY <2>2
  <2>4. n = [o |-> n.o, p |-> n.p] BY <2>1
  <2>5. n.o = [x \in DOMAIN n.o |-> n.o[x]] /\ n.p = [x \in DOMAIN n.p |-> n.p[x]] BY <2>2
  <2>6. State(n) BY <2>4, <2>5 DEF State
  <2> QED BY <2>2, <2>3, <2>6 DEF n
<1> QED BY <1>1, <1>2

LEMMA StillSo ==
  ASSUME NEW Ok(_, _, _), NEW Step(_, _), NEW s, NEW e, NEW f, State(s), Names(s, e), Names(s, f), e.o # f.o, e.p # f.p
  PROVE  LET n == UpdateOf(s, e, Ok, Step) IN State(n) /\ Names(n, f) /\ n.o[f.o] = s.o[f.o] /\ n.p[f.p] = s.p[f.p]
<1> DEFINE n == UpdateOf(s, e, Ok, Step)
<1>1. (\A x \in DOMAIN s.o : x # e.o => n.o[x] = s.o[x]) /\ (\A x \in DOMAIN s.p : x # e.p => n.p[x] = s.p[x])
      /\ DOMAIN n.o = DOMAIN s.o /\ DOMAIN n.p = DOMAIN s.p /\ State(n) BY IsaT(20), OnlyItsOwn
<1> HIDE DEF n
<1>2. State(n) /\ Names(n, f) /\ n.o[f.o] = s.o[f.o] /\ n.p[f.p] = s.p[f.p] BY <1>1 DEF Names
<1> QED BY <1>2 DEF n

THEOREM ChangePlaces ==
  ASSUME NEW Ok(_, _, _), NEW Step(_, _), NEW s, NEW e, NEW f, State(s), Names(s, e), Names(s, f), e.o # f.o, e.p # f.p
  PROVE  UpdateOf(UpdateOf(s, e, Ok, Step), f, Ok, Step) = UpdateOf(UpdateOf(s, f, Ok, Step), e, Ok, Step)
<1> DEFINE u == UpdateOf(s, e, Ok, Step)
           v == UpdateOf(s, f, Ok, Step)
<1>1. u.o[f.o] = s.o[f.o] /\ u.p[f.p] = s.p[f.p] BY IsaT(20), StillSo
<1>2. v.o[e.o] = s.o[e.o] /\ v.p[e.p] = s.p[e.p] BY IsaT(20), StillSo
<1>3. CASE ~Accepted(s, e, Ok)
  <2>1. u = s BY <1>3, Refused
  <2>2. ~Accepted(v, e, Ok) BY <1>2, <1>3 DEF Accepted
  <2> HIDE DEF v
  <2>3. UpdateOf(v, e, Ok, Step) = v BY <2>2, Refused
  <2> QED BY <2>1, <2>3 DEF v
<1>4. CASE ~Accepted(s, f, Ok)
  <2>1. v = s BY <1>4, Refused
  <2>2. ~Accepted(u, f, Ok) BY <1>1, <1>4 DEF Accepted
  <2> HIDE DEF u
  <2>3. UpdateOf(u, f, Ok, Step) = u BY <2>2, Refused
  <2> QED BY <2>1, <2>3 DEF u
<1>5. CASE Accepted(s, e, Ok) /\ Accepted(s, f, Ok)
  <2> DEFINE a == Step(s.o[e.o], e)
             b == Step(s.o[f.o], f)
             c == [W |-> e.W, B |-> e.B]
             d == [W |-> f.W, B |-> f.B]
  <2>1. u = [o |-> [s.o EXCEPT ![e.o] = a], p |-> [s.p EXCEPT ![e.p] = c]] BY <1>5 DEF UpdateOf, Accepted
  <2>2. v = [o |-> [s.o EXCEPT ![f.o] = b], p |-> [s.p EXCEPT ![f.p] = d]] BY <1>5 DEF UpdateOf, Accepted
  <2>3. Accepted(u, f, Ok) BY <1>1, <1>5 DEF Accepted
  <2>4. Accepted(v, e, Ok) BY <1>2, <1>5 DEF Accepted
  <2> HIDE DEF u, v
  <2>5. UpdateOf(u, f, Ok, Step) = [o |-> [u.o EXCEPT ![f.o] = Step(u.o[f.o], f)], p |-> [u.p EXCEPT ![f.p] = d]] BY <2>3 DEF UpdateOf, Accepted
  <2>6. UpdateOf(v, e, Ok, Step) = [o |-> [v.o EXCEPT ![e.o] = Step(v.o[e.o], e)], p |-> [v.p EXCEPT ![e.p] = c]] BY <2>4 DEF UpdateOf, Accepted
  <2>7. Step(u.o[f.o], f) = b /\ Step(v.o[e.o], e) = a BY <1>1, <1>2
  <2> HIDE DEF a, b, c, d
  <2>8. u.o = [s.o EXCEPT ![e.o] = a] /\ u.p = [s.p EXCEPT ![e.p] = c] BY <2>1
  <2>9. v.o = [s.o EXCEPT ![f.o] = b] /\ v.p = [s.p EXCEPT ![f.p] = d] BY <2>2
  <2>10. [[s.o EXCEPT ![e.o] = a] EXCEPT ![f.o] = b] = [[s.o EXCEPT ![f.o] = b] EXCEPT ![e.o] = a] BY DEF State
  <2>11. [[s.p EXCEPT ![e.p] = c] EXCEPT ![f.p] = d] = [[s.p EXCEPT ![f.p] = d] EXCEPT ![e.p] = c] BY DEF State
  <2>12. [u.o EXCEPT ![f.o] = b] = [v.o EXCEPT ![e.o] = a] BY <2>8, <2>9, <2>10
  <2>13. [u.p EXCEPT ![f.p] = d] = [v.p EXCEPT ![e.p] = c] BY <2>8, <2>9, <2>11
  <2>14. UpdateOf(u, f, Ok, Step) = [o |-> [u.o EXCEPT ![f.o] = b], p |-> [u.p EXCEPT ![f.p] = d]] BY <2>5, <2>7
  <2>15. UpdateOf(v, e, Ok, Step) = [o |-> [v.o EXCEPT ![e.o] = a], p |-> [v.p EXCEPT ![e.p] = c]] BY <2>6, <2>7
  <2> QED BY <2>12, <2>13, <2>14, <2>15 DEF u, v
<1> QED BY <1>3, <1>4, <1>5
=============================================================================
