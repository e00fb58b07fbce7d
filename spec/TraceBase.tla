----------------------------- MODULE TraceBase -----------------------------
(* Checks traces of the real code: every recorded event must be a step the  *)
(* specification of its family allows.  The family supplies Start, the      *)
(* abstract state before the first event, Accept, whether the specification *)
(* allows the event in a state, and Post, the state after it.  An event     *)
(* that is not allowed leaves the trace without a successor: a deadlock.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Start, Accept(_, _), Post(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, S
vars == <<tid, l, S>>

Events(t) == Traces[t].ev
IsControl(e) == "ctl" \in DOMAIN e

TraceInit == /\ tid \in 1 .. Len(Traces)
             /\ l = 1
             /\ S = Start

Consume ==
  /\ l <= Len(Events(tid))
  /\ LET e == Events(tid)[l]
     IN  IF IsControl(e)
         THEN \* a falsified event, always the last of its trace: must be rejected (the driver counts)
              /\ IF Accept(S, e) THEN PrintT(<<"CONTROL-ACCEPTED", tid, l>>) ELSE TRUE
              /\ S' = S
         ELSE /\ IF Accept(S, e) THEN TRUE ELSE FALSE
              /\ S' = Post(S, e)
  /\ l' = l + 1
  /\ UNCHANGED tid

Finished == /\ l > Len(Events(tid))
            /\ UNCHANGED vars

TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == <<tid, l>>
TraceAlias == [tid |-> tid, l |-> l]
=============================================================================
