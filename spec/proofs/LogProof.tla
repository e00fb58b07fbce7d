------------------------------ MODULE LogProof ------------------------------
(* C28, for any number of setups and messages and any names: every message   *)
(* arrives at one place at most, and every place gets its messages in the    *)
(* order they were sent.  Proved with tlapm.                                 *)
EXTENDS Sinks, TLAPS
CONSTANTS Names
VARIABLES sink, got, n

Places == {<<"stdout">>} \cup {<<"file", f>> : f \in Names}
Setups == [file : BOOLEAN, where : STRING, name : Names, verbose : BOOLEAN]
Begin == sink = LogStart /\ got = [p \in Places |-> <<>>] /\ n = 0
Setup == \E c \in Setups : sink' = AfterInit(sink, c) /\ UNCHANGED <<got, n>>
Say == n' = n + 1 /\ got' = Said(got, sink, n + 1) /\ UNCHANGED sink
Next == Setup \/ Say
vars == <<sink, got, n>>

Sent == \A p \in Places : \A i \in 1 .. Len(got[p]) : got[p][i] \in 1 .. n
InOrder == \A p \in Places : \A i, j \in 1 .. Len(got[p]) : i < j => got[p][i] < got[p][j]
Once == \A p, q \in Places : \A i \in 1 .. Len(got[p]), j \in 1 .. Len(got[q]) : got[p][i] = got[q][j] => p = q
Kept == n \in Nat /\ got \in [Places -> Seq(Int)] /\ Sent /\ InOrder /\ Once

LEMMA Start == Begin => Kept
<1> SUFFICES ASSUME Begin PROVE Kept OBVIOUS
<1>1. got = [p \in Places |-> <<>>] /\ n = 0 BY DEF Begin
<1>2. \A p \in Places : got[p] = <<>> /\ Len(got[p]) = 0 BY <1>1
<1>3. got \in [Places -> Seq(Int)] BY <1>1
<1> QED BY <1>1, <1>2, <1>3 DEF Kept, Sent, InOrder, Once

LEMMA Saying == ASSUME Kept, Say PROVE Kept'
<1> DEFINE t == To(sink)
<1>1. n' = n + 1 /\ n' \in Nat /\ n \in Nat BY DEF Say, Kept
<1>2. CASE t \notin DOMAIN got
  <2>1. got' = got BY <1>2 DEF Say, Said
  <2>2. \A p \in Places : \A i \in 1 .. Len(got[p]) : got[p][i] \in 1 .. n' BY <1>1 DEF Kept, Sent
  <2>3. got' \in [Places -> Seq(Int)] /\ Sent' BY <2>1, <2>2 DEF Kept, Sent
  <2>4. InOrder' /\ Once' BY <2>1 DEF Kept, InOrder, Once
  <2> QED BY <1>1, <2>3, <2>4 DEF Kept
<1>3. CASE t \in DOMAIN got
  <2>1. got' = [got EXCEPT ![t] = Append(got[t], n + 1)] BY <1>3 DEF Say, Said
  <2>2. t \in Places BY <1>3 DEF Kept
  <2> HIDE DEF t
  <2>3. got' \in [Places -> Seq(Int)] BY <2>1, <2>2, <1>1 DEF Kept
  <2>4. \A p \in Places : p # t => got'[p] = got[p] BY <2>1 DEF Kept
  <2>5. got'[t] = Append(got[t], n + 1) BY <2>1, <2>2 DEF Kept
  <2> DEFINE m == Len(got[t])
  <2>6. got[t] \in Seq(Int) /\ m \in Nat BY <2>2 DEF Kept
  <2>7. Len(got'[t]) = m + 1 /\ got'[t][m + 1] = n + 1 /\ \A i \in 1 .. m : got'[t][i] = got[t][i] BY <2>5, <2>6, <1>1
  <2>8. \A i \in 1 .. m : got[t][i] \in 1 .. n BY <2>2 DEF Kept, Sent
  <2> HIDE DEF m
  <2>9. \A p \in Places : \A i \in 1 .. Len(got'[p]) : IF p = t /\ i = m + 1 THEN got'[p][i] = n + 1 ELSE i \in 1 .. Len(got[p]) /\ got'[p][i] = got[p][i] /\ got[p][i] \in 1 .. n
    <3> SUFFICES ASSUME NEW p \in Places, NEW i \in 1 .. Len(got'[p]) PROVE IF p = t /\ i = m + 1 THEN got'[p][i] = n + 1 ELSE i \in 1 .. Len(got[p]) /\ got'[p][i] = got[p][i] /\ got[p][i] \in 1 .. n OBVIOUS
    <3>1. CASE p # t BY <3>1, <2>4 DEF Kept, Sent
    <3>2. CASE p = t /\ i = m + 1 BY <3>2, <2>7
    <3>3. CASE p = t /\ i # m + 1
      <4>1. i \in 1 .. m BY <3>3, <2>6, <2>7
      <4> QED BY <3>3, <4>1, <2>7, <2>8 DEF m
    <3> QED BY <3>1, <3>2, <3>3
  <2>10. Sent' BY <2>9, <1>1 DEF Sent
  <2>11. InOrder'
    <3> SUFFICES ASSUME NEW p \in Places, NEW i \in 1 .. Len(got'[p]), NEW j \in 1 .. Len(got'[p]), i < j PROVE got'[p][i] < got'[p][j] BY DEF InOrder
    <3>1. CASE p = t /\ j = m + 1
      <4>1. i # m + 1 BY <3>1
      <4>2. got'[p][j] = n + 1 /\ got'[p][i] \in 1 .. n BY <2>9, <3>1, <4>1
      <4> QED BY <4>2, <1>1
    <3>2. CASE ~(p = t /\ j = m + 1)
      <4>1. ~(p = t /\ i = m + 1)
        <5> SUFFICES ASSUME p = t, i = m + 1 PROVE FALSE OBVIOUS
        <5>1. j \in 1 .. m + 1 BY <2>7
        <5> QED BY <5>1, <2>6
      <4> QED BY <2>9, <3>2, <4>1 DEF Kept, InOrder
    <3> QED BY <3>1, <3>2
  <2>12. Once'
    <3> SUFFICES ASSUME NEW p \in Places, NEW q \in Places, NEW i \in 1 .. Len(got'[p]), NEW j \in 1 .. Len(got'[q]), got'[p][i] = got'[q][j] PROVE p = q BY DEF Once
    <3>1. CASE p = t /\ i = m + 1
      <4>1. got'[q][j] = n + 1 BY <2>9, <3>1
      <4>2. q = t /\ j = m + 1 BY <2>9, <4>1, <1>1
      <4> QED BY <3>1, <4>2
    <3>2. CASE q = t /\ j = m + 1
      <4>1. got'[p][i] = n + 1 BY <2>9, <3>2
      <4>2. p = t /\ i = m + 1 BY <2>9, <4>1, <1>1
      <4> QED BY <3>2, <4>2
    <3>3. CASE ~(p = t /\ i = m + 1) /\ ~(q = t /\ j = m + 1) BY <2>9, <3>3 DEF Kept, Once
    <3> QED BY <3>1, <3>2, <3>3
  <2> QED BY <1>1, <2>3, <2>10, <2>11, <2>12 DEF Kept
<1> QED BY <1>2, <1>3

THEOREM Safe == Begin /\ [][Next]_vars => [](InOrder /\ Once)
<1>1. Kept => InOrder /\ Once BY DEF Kept
<1>2. Kept /\ [Next]_vars => Kept'
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Kept, Sent, InOrder, Once
  <2>2. CASE Setup
    <3>1. UNCHANGED <<got, n>> BY <2>2 DEF Setup
    <3> QED BY <3>1 DEF Kept, Sent, InOrder, Once
  <2> QED BY <2>1, <2>2, Saying DEF Next
<1> QED BY <1>1, <1>2, Start, PTL
=============================================================================
