----------------------------- MODULE OptimProto -----------------------------
(* C11.  Every sequence of Depth updates with two optimizers and three sets *)
(* of parameters, with fitting and non-fitting gradients.  Only shapes      *)
(* matter here; the traces of the real code are judged by OptimSM.          *)
EXTENDS OptimSM, Rat, Json, Out
CONSTANTS Depth
VARIABLES s, hist
ovars == <<s, hist>>

Sh(r, c) == [r |-> r, c |-> c, m |-> <<>>]
Par == [P |-> <<2, 3>>, Q |-> <<2, 3>>, R |-> <<3, 2>>]
Opts == {"A", "B"}
\* how the gradients differ from the parameters' shapes
Bad == {"", "wt", "wr", "wc", "bc", "br"}
GradW(p, bad) == LET d == Par[p] IN
  CASE bad = "wt" -> Sh(d[2], d[1]) [] bad = "wr" -> Sh(d[1] + 1, d[2]) [] bad = "wc" -> Sh(d[1], d[2] + 1) [] OTHER -> Sh(d[1], d[2])
GradB(p, bad) == LET d == Par[p] IN
  CASE bad = "bc" -> Sh(1, d[2] - 1) [] bad = "br" -> Sh(2, d[2]) [] OTHER -> Sh(1, d[2])
Calls == [o : Opts, p : DOMAIN Par, bad : Bad]

Ev(c) == [o |-> c.o, p |-> c.p, dw |-> GradW(c.p, c.bad), db |-> GradB(c.p, c.bad)]
ParamOf(p) == [W |-> Sh(Par[p][1], Par[p][2]), B |-> Sh(1, Par[p][2])]
Init == /\ s = [o |-> [x \in Opts |-> [mw |-> NoMat, mb |-> NoMat, t |-> 0]], p |-> [x \in DOMAIN Par |-> ParamOf(x)]]
        /\ hist = <<>>
Do(c) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, c)
  /\ IF Valid(s.o[c.o], s.p[c.p], Ev(c))
     THEN s' = [s EXCEPT !.o[c.o] = [mw |-> s.p[c.p].W, mb |-> s.p[c.p].B, t |-> @.t + 1]]
     ELSE s' = s
Next == \E c \in Calls : Do(c)

\* The history of an optimizer is made of its own accepted updates only.
Mine(o, k) == hist[k].o = o /\ hist[k].bad = ""
FirstOf(o) == {k \in 1 .. Len(hist) : Mine(o, k) /\ \A q \in 1 .. k - 1 : ~Mine(o, q)}
OwnHistory ==
  \A o \in Opts :
    IF FirstOf(o) = {} THEN s.o[o].t = 0 /\ s.o[o].mw = NoMat
    ELSE LET f == CHOOSE k \in FirstOf(o) : TRUE
             d == Par[hist[f].p]
         IN  /\ s.o[o].mw = Sh(d[1], d[2])
             /\ s.o[o].t = Cardinality({k \in 1 .. Len(hist) : Mine(o, k) /\ Par[hist[k].p] = d})
ParamsKeepShape == \A p \in DOMAIN Par : s.p[p] = ParamOf(p)
EmitProg == Len(hist) = Depth => Line(ToJson(hist))
=============================================================================
