------------------------------ MODULE StoreSM ------------------------------
(* C20, C21, C22.  Buffers and files with saved models and layers.  State:  *)
(*   buf   the bytes of each buffer that have not been read                 *)
(*   fs    the contents of each regular file                                *)
EXTENDS Codec, Clauses

StoreStart == [buf |-> [x \in {} |-> 0], fs |-> [x \in {} |-> 0]]
SWith(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* ---- an object of the library against what its bytes say ----
LayerIs(v, x) ==
  /\ x.code = v.code /\ x.in = v.in /\ x.out = v.out
  /\ x.wr = v.in /\ x.wc = v.out /\ x.br = 1 /\ x.bc = v.out
  /\ x.w = v.w /\ x.b = v.b
  /\ v.code = 3 => x.slope = v.slope
  /\ v.code = 5 => x.drop = v.drop
\* Values given once are as given; nothing is said of others.
ValIs(v, k, x) == LET at == {i \in 1 .. Len(v.vals) : v.vals[i][1] = KeyBytes[k]}
                  IN  Cardinality(at) = 1 => x = v.vals[CHOOSE i \in at : TRUE][2]
ModelIs(v, x) ==
  LET keys == KeysOf(OptNames[v.opt + 1])
  IN  /\ x.n = Len(v.layers) /\ Len(x.layers) = x.n
      /\ x.n > 0 => x.in = v.layers[1].in
      /\ x.out = v.out
      /\ x.loss = v.loss /\ x.lossobj = v.loss /\ x.losssize = v.out
      /\ x.acc = v.acc /\ x.prec = v.prec
      /\ x.opt = v.opt
      /\ \A k \in keys : ValIs(v, k, x.vals[k])
      /\ Len(x.opts) = x.n
      /\ \A i \in 1 .. Len(x.opts) : x.opts[i].code = v.opt /\ \A k \in keys : ValIs(v, k, x.opts[i].vals[k])
      /\ \A i \in 1 .. x.n : LayerIs(v.layers[i], x.layers[i])

Dec(what, b, p) == IF what = "layer" THEN DecLayer(b, p) ELSE DecModel(b, p)
ObjIs(what, v, x) == IF what = "layer" THEN LayerIs(v, x) ELSE ModelIs(v, x)
Proper0(what, v) == IF what = "layer" THEN ProperLayer(v) ELSE ProperModel(v)

\* ---- what can be represented ----
LayerFits(x) == x.wr = x.in /\ x.wc = x.out /\ x.br = 1 /\ x.bc = x.out
Fits(what, x) == IF what = "layer" THEN LayerFits(x) ELSE x.n <= 127 /\ \A i \in 1 .. Len(x.layers) : LayerFits(x.layers[i])
LayerBytes(x) == 27 + 8 * (x.in + 1) * x.out
RECURSIVE SumBytes(_, _)
SumBytes(ls, k) == IF k = 0 THEN 0 ELSE LayerBytes(ls[k]) + SumBytes(ls, k - 1)
ModelBytes(x) == 30 + (IF x.opt = 0 THEN 52 ELSE 79) + SumBytes(x.layers, Len(x.layers))

\* Exactly one object from position p to the end, x.
Holds(what, b, p, x) == LET D == Dec(what, b, p) IN D.ok /\ D.at = Len(b) + 1 /\ ObjIs(what, D.v, x)
\* the parts the format leaves no choice in: version, header input size, values
FullHead(what, b, p, x, version) ==
  what = "layer" \/ LET v == DecModel(b, p).v IN
     /\ v.version = version
     /\ v.in = x.in
     /\ Len(v.vals) = Cardinality(KeysOf(OptNames[v.opt + 1]))
     /\ \A k \in KeysOf(OptNames[v.opt + 1]) : \E i \in 1 .. Len(v.vals) : v.vals[i][1] = KeyBytes[k]

\* ---- loading ----
RECURSIVE Patched(_, _, _)
Patched(b, ps, k) == IF k > Len(ps) THEN b ELSE Patched([b EXCEPT ![ps[k][1] + 1] = ps[k][2]], ps, k + 1)
Bytes(s, e) == LET b == s.buf[e.d] IN SubSeq(Patched(b, e.patch, 1), 1, IF e.cut < 0 THEN Len(b) ELSE e.cut)
\* p: the property that is decided, exact: whether the rest of the buffer is known
LoadOK(e, b, hand, damaged) ==
  LET D == Dec(e.what, b, 1)
  IN  IF D.ok
      THEN /\ Proper0(e.what, D.v) => IsOk(e, hand)
           /\ e.st = "ok" =>
                /\ ClauseX(e, damaged, "not what the bytes say", ObjIs(e.what, D.v, e.desc), D.v)
                /\ ClauseX(e, hand, "not what the bytes say", ObjIs(e.what, D.v, e.desc), D.v)
                /\ Has(e, "left") => ClauseX(e, "C20", "did not stop at the end of the data", e.left = Len(b) + 1 - D.at, Len(b) + 1 - D.at)
           /\ e.st # "ok" => IsErr(e, damaged)
      ELSE IsErr(e, damaged)
Frugal(e, b) == Has(e, "alloc") => Clause(e, "C21", "memory out of proportion to the data", e.alloc <= 1048576 + 400 * Len(b))

\* ---- files ----
\* After a save to path: every other file is what it was.
OthersKept(s, e) == \A f \in DOMAIN s.fs \ {e.path} : Has(e.files, f) /\ e.files[f] = s.fs[f]
Kept(s, e) == e.path \in DOMAIN s.fs => Has(e.files, e.path) /\ e.files[e.path] = s.fs[e.path]
SaveCan(e) == e.where = "plain" /\ (e.limit < 0 \/ e.limit >= ModelBytes(e.desc))

StoreAccept(s, e) ==
  CASE e.op \in {"data", "files"} -> TRUE
    [] e.op = "save" ->
         LET old == s.buf[e.d]
             p == Len(old) + 1
         IN  IF Fits(e.what, e.desc)
             THEN /\ IsOk(e, "C20")
                  /\ NoChange(e, "C20")
                  /\ Clause(e, "C20", "changed what was in the buffer", e.st = "ok" => SubSeq(e.bytes, 1, p - 1) = old)
                  /\ Clause(e, "C20", "not the documented layout of this object", e.st = "ok" => Holds(e.what, e.bytes, p, e.desc) /\ FullHead(e.what, e.bytes, p, e.desc, e.version))
             ELSE IsErr(e, "C22")
    [] e.op = "read" -> LoadOK(e, s.buf[e.d], "C20", "C21") /\ Frugal(e, s.buf[e.d])
    [] e.op = "load" -> LET b == Bytes(s, e) IN LoadOK(e, b, "C20", "C21") /\ Frugal(e, b)
    [] e.op = "savefile" ->
         /\ Clause(e, "C22", "left a file open", e.open = 0)
         /\ Clause(e, "C22", "changed something else", Chg(e) = {} /\ OthersKept(s, e))
         /\ IF ~Fits("model", e.desc)
            THEN /\ IsErr(e, "C22")
                 /\ Clause(e, "C22", "a model that cannot be saved damaged the old file", Kept(s, e))
            ELSE /\ SaveCan(e) => IsOk(e, "C22")
                 /\ e.st = "panic" => IsOk(e, "C22")
                 /\ Clause(e, "C22", "reported success, but the file does not hold the model", e.st = "ok" =>
                      Has(e.files, e.path) /\ Holds("model", e.files[e.path], 1, e.desc) /\ FullHead("model", e.files[e.path], 1, e.desc, e.version))
    [] e.op = "loadfile" ->
         /\ Clause(e, "C22", "left a file open", e.open = 0)
         /\ Clause(e, "C22", "loading changed something", Chg(e) = {} /\ \A f \in DOMAIN s.fs : Has(e.files, f) /\ e.files[f] = s.fs[f])
         /\ IF e.path \in DOMAIN s.fs
            THEN LoadOK(e, s.fs[e.path], "C22", "C22")
            ELSE IsErr(e, "C22")

    [] e.op = "hugefile" ->
         \* a file too long to be written down in the trace: its length, and whether the loaded parameters were the saved ones
         /\ IsOk(e, "C22")
         /\ e.st = "ok" =>
              /\ ClauseX(e, "C22", "not the length of this model's data", e.size = ModelBytes(e.desc), ModelBytes(e.desc))
              /\ Clause(e, "C22", "does not load as this model", e.same)
    [] e.op = "giantfile" ->
         \* written by hand: zeros, except for the values e.at (<<index, value>>; a later one replaces an earlier one)
         /\ IsOk(e, "C22")
         /\ e.st = "ok" =>
              LET Want == {e.at[k] : k \in {q \in 1 .. Len(e.at) : \A z \in q + 1 .. Len(e.at) : e.at[z][1] # e.at[q][1]}}
              IN  /\ Clause(e, "C22", "not the sizes in the file", e.sizes = <<1, e.in, e.out>>)
                  /\ ClauseX(e, "C22", "not the values in the file", {e.found[k] : k \in 1 .. Len(e.found)} = Want, Want)

Drop(b, n) == SubSeq(b, Len(b) - n + 1, Len(b))
StorePost(s, e) ==
  CASE e.op = "data" -> [s EXCEPT !.buf = SWith(s.buf, e.d, e.bytes)]
    [] e.op = "save" -> [s EXCEPT !.buf = SWith(s.buf, e.d, e.bytes)]
    [] e.op = "read" -> [s EXCEPT !.buf = SWith(s.buf, e.d, Drop(s.buf[e.d], IF e.left > Len(s.buf[e.d]) THEN 0 ELSE e.left))]
    [] e.op \in {"files", "savefile"} -> [s EXCEPT !.fs = e.files]
    [] OTHER -> s
=============================================================================
