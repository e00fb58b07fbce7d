----------------------------- MODULE LayerProto -----------------------------
(* C05.  The calling protocol of a layer: which calls are answered with an  *)
(* error depends only on the shapes of the arguments and of the latest      *)
(* accepted forward pass.  Explores every sequence of Depth calls with      *)
(* fitting and non-fitting shapes and emits it as a program.                *)
EXTENDS LayerSM, Rat, Json, Out

CONSTANTS Depth
VARIABLES l, hist
pvars == <<l, hist>>

In == 2
OutW == 3
Shape(r, c) == [r |-> r, c |-> c, m |-> <<>>]
Fwds == [op : {"fwd"}, xr : {1, 2}, xc : {In, In + 1}, dr : {1}, dc : {1}]
NoDrops == [op : {"nodrop"}, xr : {1, 2}, xc : {In}, dr : {1}, dc : {1}]
Bwds == [op : {"bwd"}, xr : {1, 2}, xc : {In, In - 1}, dr : {1, 2}, dc : {OutW, OutW + 1}]
Bces == [op : {"bce"}, xr : {2}, xc : {In}, dr : {1, 2, 3}, dc : {OutW, OutW - 1}]
Loads == [op : {"reload"}, xr : {1}, xc : {In}, dr : {1}, dc : {1}]      \* saved and loaded: a layer without a past
Calls == Fwds \cup NoDrops \cup Bwds \cup Bces \cup Loads

\* How the call ends.
Ends(ll, e) ==
  CASE e.op = "reload" -> "ok"
    [] e.op \in {"fwd", "nodrop"} -> IF FwdValid(ll, Shape(e.xr, e.xc)) THEN "ok" ELSE "err"
    [] e.op = "bwd" -> IF BwdValid(ll, Shape(e.xr, e.xc), Shape(e.dr, e.dc)) THEN "ok" ELSE "err"
    [] e.op = "bce" -> IF BceValid(ll, Shape(e.xr, e.xc), Shape(e.dr, e.dc), Shape(e.dr, e.dc)) THEN "ok" ELSE "err"

Init == /\ l \in {[kind |-> k, in |-> In, out |-> OutW, par |-> N0, z |-> None] : k \in {"hidden", "linear"}}
        /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Calls :
             /\ hist' = Append(hist, e)
             /\ l' = [l EXCEPT !.z = PastAfter(@, [op |-> e.op, st |-> Ends(l, e)], TRUE, Shape(e.xr, OutW), None)]
Spec == Init /\ [][Next]_pvars

\* The cache is that of the latest accepted forward pass, whatever was refused since.
Fresh == {k \in 1 .. Len(hist) : hist[k].op = "reload"}
Accepted == {k \in 1 .. Len(hist) : hist[k].op \in {"fwd", "nodrop"} /\ hist[k].xc = In /\ \A q \in Fresh : q < k}
CacheIsLatest ==
  IF Accepted = {} THEN l.z = None
  ELSE l.z.r = hist[CHOOSE k \in Accepted : \A q \in Accepted : q <= k].xr
\* Accepted backward passes have gradients of the right shapes.
ShapesAgree ==
  \A e \in Bwds : Ends(l, e) = "ok" =>
     /\ e.xr = e.dr /\ e.xc = l.in /\ e.dc = l.out
     /\ l.kind # "linear" => Accepted # {} /\ l.z.r = e.dr
SomethingRefused == \E e \in Calls : Ends(l, e) = "err"
EmitProg == (Len(hist) = Depth /\ l.kind = "hidden") => Line(ToJson(hist))
=============================================================================
