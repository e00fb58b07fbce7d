---------------------------- MODULE ShuffleModel ----------------------------
(* C25.  The shuffle as swaps of rows, made in samples and labels alike:    *)
(* every reachable state holds the same pairs, and every order is reached.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N
VARIABLES X, Y, i
svars == <<X, Y, i>>
Label(x) == (x * 7) % 3              \* several samples share a label
Init == X = [k \in 1 .. N |-> k] /\ Y = [k \in 1 .. N |-> Label(k)] /\ i = N
SwapIn(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Next == /\ i > 1
        /\ \E j \in 1 .. i : X' = SwapIn(X, i, j) /\ Y' = SwapIn(Y, i, j)
        /\ i' = i - 1
Spec == Init /\ [][Next]_svars
PairsKept == \A k \in 1 .. N : Y[k] = Label(X[k])
Permuted == {X[k] : k \in 1 .. N} = 1 .. N
\* Once a place is settled it stays so, and every sample can settle there (counted by the number of states).
=============================================================================
