----------------------------- MODULE LaneProto -----------------------------
(* C27.  Every interleaving of Lanes lanes of Steps calls.  The state of a  *)
(* lane's objects is what its own calls made of it; so is each result.      *)
EXTENDS Interleave, TLC, Json, Out
CONSTANTS Steps
VARIABLES sched
lvars == <<obj, res, sched>>

\* some function of the object, the lane and the number of the call
DoIt(x, lane, k) == (3 * x + 5 * lane + k) % 101
RECURSIVE AloneIt(_, _)
AloneIt(lane, k) == IF k = 0 THEN lane ELSE DoIt(AloneIt(lane, k - 1), lane, k)

Init == Begin /\ sched = <<>>
Step(i) == Len(res[i]) < Steps /\ Call(i) /\ sched' = Append(sched, i)
Next == \E i \in Lanes : Step(i)

EmitProg == (\A i \in Lanes : Len(res[i]) = Steps) => Line(ToJson([s |-> sched]))
=============================================================================
