----------------------------- MODULE Interleave -----------------------------
(* C27.  Lanes that run at the same time, each on an object of its own: a    *)
(* call makes Do(x, lane, k) of the object x of its lane, and returns it.    *)
EXTENDS Integers, Sequences
CONSTANTS Lanes, Do(_, _, _), Alone(_, _)      \* Alone(lane, k): the object after k calls of this lane alone
VARIABLES obj, res

Begin == obj = [i \in Lanes |-> Alone(i, 0)] /\ res = [i \in Lanes |-> <<>>]
Call(i) == LET x == Do(obj[i], i, Len(res[i]) + 1)
           IN  obj' = [obj EXCEPT ![i] = x] /\ res' = [res EXCEPT ![i] = Append(@, x)]
Independent == \A i \in Lanes : \A k \in 1 .. Len(res[i]) : res[i][k] = Alone(i, k)
=============================================================================
