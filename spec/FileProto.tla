----------------------------- MODULE FileProto -----------------------------
(* C22.  Saves and loads of models over a few paths, with devices that get  *)
(* full.  A file is absent, holds something else, a model, or is damaged by *)
(* a save that was reported as failed.  Emits every sequence of Depth calls.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Out
CONSTANTS Depth
VARIABLES fs, hist, last
pvars == <<fs, hist, last>>

Paths == {"a", "text"}
Models == {"small", "large", "long", "misfit"}
Fits(m) == m \in {"small", "large"}
Saves == [op : {"save"}, m : Models, path : Paths \cup {"dir", "missing/a", "text/a", ""}, limit : {"none"}]
         \cup [op : {"save"}, m : {"small", "large"}, path : Paths, limit : {"nothing", "half", "one less", "exact"}]
Loads == [op : {"load"}, path : Paths \cup {"dir", "missing/a", ""}]

Init == fs = [p \in Paths |-> IF p = "a" THEN "absent" ELSE "other"] /\ hist = <<>> /\ last = "ok"
Save(c) ==
  /\ c.op = "save"
  /\ IF ~Fits(c.m) \/ c.path \notin Paths
     THEN last' = "err" /\ UNCHANGED fs
     ELSE IF c.limit \in {"none", "exact"}
          THEN last' = "ok" /\ fs' = [fs EXCEPT ![c.path] = c.m]
          ELSE last' = "err" /\ \E r \in {"damaged", fs[c.path]} : fs' = [fs EXCEPT ![c.path] = r]
Load(c) ==
  /\ c.op = "load"
  /\ last' = IF c.path \in Paths /\ fs[c.path] \in Models THEN "ok" ELSE "err"
  /\ UNCHANGED fs
Next == \E c \in Saves \cup Loads : Len(hist) < Depth /\ hist' = Append(hist, c) /\ (Save(c) \/ Load(c))

\* A file only ever holds a model that was saved to it, by a call that succeeded; the latest one.
SavesTo(p) == {k \in 1 .. Len(hist) : hist[k].op = "save" /\ hist[k].path = p /\ Fits(hist[k].m)}
Honest == \A p \in Paths : fs[p] \in Models => \E k \in SavesTo(p) : hist[k].m = fs[p] /\ hist[k].limit \in {"none", "exact"}
               /\ \A q \in SavesTo(p) : q > k => hist[q].limit \notin {"none", "exact"}
NoHopeless == \A p \in Paths : fs[p] \notin {"long", "misfit"}
\* A save that cannot be represented never damages anything.
Spares == \A p \in Paths : fs[p] = "damaged" => SavesTo(p) # {}
EmitProg == Len(hist) = Depth => Line(ToJson(hist))
=============================================================================
