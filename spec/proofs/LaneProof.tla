----------------------------- MODULE LaneProof ------------------------------
(* C27, for any number of lanes, any schedule and whatever the calls do:     *)
(* each lane gets what it would get alone.  Proved with tlapm.               *)
EXTENDS Interleave, TLAPS
CONSTANT Objects

ASSUME Runs == \A i \in Lanes, k \in Nat : Alone(i, k) \in Objects /\ Alone(i, k + 1) = Do(Alone(i, k), i, k + 1)
Next == \E i \in Lanes : Call(i)
vars == <<obj, res>>
Kept == /\ obj = [i \in Lanes |-> Alone(i, Len(res[i]))]
        /\ res \in [Lanes -> Seq(Objects)]
        /\ Independent

LEMMA Start == Begin => Kept
<1> SUFFICES ASSUME Begin PROVE Kept OBVIOUS
<1>1. res = [i \in Lanes |-> <<>>] /\ obj = [i \in Lanes |-> Alone(i, 0)] BY DEF Begin
<1>2. \A i \in Lanes : res[i] = <<>> /\ Len(res[i]) = 0 BY <1>1
<1>3. res \in [Lanes -> Seq(Objects)] BY <1>1
<1>4. [i \in Lanes |-> Alone(i, 0)] = [i \in Lanes |-> Alone(i, Len(res[i]))] BY <1>2
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Kept, Independent

LEMMA Calling == ASSUME Kept, NEW i \in Lanes, Call(i) PROVE Kept'
<1> DEFINE n == Len(res[i])
           x == Do(obj[i], i, n + 1)
<1>1. obj' = [obj EXCEPT ![i] = x] /\ res' = [res EXCEPT ![i] = Append(res[i], x)] BY DEF Call
<1>2. res[i] \in Seq(Objects) /\ n \in Nat BY DEF Kept
<1>3. obj[i] = Alone(i, n) BY DEF Kept
<1>4. x = Alone(i, n + 1) /\ x \in Objects
  <2>1. Alone(i, n + 1) = Do(Alone(i, n), i, n + 1) BY <1>2, Runs
  <2>2. Alone(i, n + 1) \in Objects BY <1>2, Runs
  <2> QED BY <1>3, <2>1, <2>2
<1> HIDE DEF n, x
<1>5. res' \in [Lanes -> Seq(Objects)] BY <1>1, <1>2, <1>4 DEF Kept
<1>6. res'[i] = Append(res[i], x) /\ \A j \in Lanes : j # i => res'[j] = res[j] BY <1>1 DEF Kept
<1>7. Len(res'[i]) = n + 1 /\ res'[i][n + 1] = x /\ \A k \in 1 .. n : res'[i][k] = res[i][k] BY <1>2, <1>4, <1>6 DEF n
<1>8. obj' = [j \in Lanes |-> Alone(j, Len(res'[j]))]
  <2>1. obj' = [j \in Lanes |-> IF j = i THEN x ELSE Alone(j, Len(res[j]))] BY <1>1 DEF Kept
  <2> QED BY <2>1, <1>4, <1>6, <1>7
<1>9. Independent'
  <2> SUFFICES ASSUME NEW j \in Lanes, NEW k \in 1 .. Len(res'[j]) PROVE res'[j][k] = Alone(j, k) BY DEF Independent
  <2>1. CASE j # i BY <2>1, <1>6 DEF Kept, Independent
  <2>2. CASE j = i
    <3>1. k \in 1 .. n + 1 BY <2>2, <1>7
    <3>2. CASE k = n + 1 BY <2>2, <3>2, <1>4, <1>7
    <3>3. CASE k # n + 1
      <4>1. k \in 1 .. n BY <3>1, <3>3, <1>2
      <4> QED BY <2>2, <4>1, <1>7 DEF Kept, Independent, n
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2
<1> QED BY <1>5, <1>8, <1>9 DEF Kept

THEOREM Safe == Begin /\ [][Next]_vars => []Independent
<1>1. Kept => Independent BY DEF Kept
<1>2. Kept /\ [Next]_vars => Kept'
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Kept, Independent
  <2> QED BY <2>1, Calling DEF Next
<1> QED BY <1>1, <1>2, Start, PTL
=============================================================================
