------------------------------- MODULE Codec -------------------------------
(* The format of saved layers and models (LayerData.md, ModelData.md), byte *)
(* by byte.  Numbers with a fraction stay what they are in the file: eight  *)
(* bytes.                                                                   *)
EXTENDS Ints, FiniteSets, TLC

LayerKinds == <<"hidden", "linear", "sigmoid", "leaky", "softmax", "dropout">>
LossNames == <<"mse", "mae", "ce", "bce">>
OptNames == <<"sgd", "adam">>
\* The keys of the optimizer values, as bytes.
KeyBytes ==
  [learningRate |-> <<108, 101, 97, 114, 110, 105, 110, 103, 82, 97, 116, 101>>,
   decay |-> <<100, 101, 99, 97, 121>>,
   momentum |-> <<109, 111, 109, 101, 110, 116, 117, 109>>,
   epsilon |-> <<101, 112, 115, 105, 108, 111, 110>>,
   beta1 |-> <<98, 101, 116, 97, 49>>,
   beta2 |-> <<98, 101, 116, 97, 50>>]
KeysOf(opt) == IF opt = "sgd" THEN {"learningRate", "decay", "momentum"} ELSE {"learningRate", "decay", "epsilon", "beta1", "beta2"}
KeyName(bs) == IF \E k \in DOMAIN KeyBytes : KeyBytes[k] = bs THEN CHOOSE k \in DOMAIN KeyBytes : KeyBytes[k] = bs ELSE "?"

ModelMagic == <<78, 78, 77, 76>>   \* NNML
LayerMagic == <<76, 65>>           \* LA
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* ---- writing ----
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* a layer: [code, in, out, slope, drop, w, b]; w row by row, w and b sequences of eight bytes each
EncLayer(l) == LayerMagic \o Int8(l.code) \o Int32(l.in) \o Int32(l.out) \o l.slope \o l.drop \o Flat(l.w) \o Flat(l.b)
\* a model: [version, in, out, loss, acc, prec, opt, vals, layers]; loss, acc, opt are codes, vals a sequence of <<key bytes, eight bytes>>
EncModel(m) ==
  ModelMagic \o m.version \o Int8(Len(m.layers)) \o Int32(m.in) \o Int32(m.out) \o Int8(m.loss) \o Int8(m.acc) \o m.prec \o Int8(m.opt)
  \o Int8(Len(m.vals)) \o Flat([i \in 1 .. Len(m.vals) |-> Int8(Len(m.vals[i][1])) \o m.vals[i][1] \o m.vals[i][2]])
  \o Flat([i \in 1 .. Len(m.layers) |-> EncLayer(m.layers[i])])

\* ---- reading ----
\* Results: [ok |-> FALSE], or [ok |-> TRUE, at |-> first byte not read, v |-> value].
Refused == [ok |-> FALSE]
Has8(b, p, n) == p + n - 1 <= Len(b)          \* n bytes from position p on
Slice(b, p, n) == SubSeq(b, p, p + n - 1)
Words(b, p, n) == [i \in 1 .. n |-> Slice(b, p + 8 * (i - 1), 8)]

DecLayer(b, p) ==
  IF ~Has8(b, p, 27) THEN Refused
  ELSE IF Slice(b, p, 2) # LayerMagic THEN Refused
  ELSE LET in == GetInt32(b, p + 3)
           out == GetInt32(b, p + 7)
           rest == Len(b) - (p + 26)
       IN  IF b[p + 2] > 5 \/ in < 1 \/ out < 1 THEN Refused
           ELSE IF in > rest \/ out > rest THEN Refused
           ELSE IF in + 1 > (rest \div 8) \div out THEN Refused
           ELSE [ok |-> TRUE, at |-> p + 27 + 8 * (in + 1) * out,
                 v |-> [code |-> b[p + 2], in |-> in, out |-> out, slope |-> Slice(b, p + 11, 8), drop |-> Slice(b, p + 19, 8),
                        w |-> Words(b, p + 27, in * out), b |-> Words(b, p + 27 + 8 * in * out, out)]]

RECURSIVE DecVals(_, _, _, _)
DecVals(b, p, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, at |-> p, v |-> acc]
  ELSE IF ~Has8(b, p, 1) THEN Refused
  ELSE LET k == S8(b[p])
       IN  IF k < 0 THEN Refused
           ELSE IF ~Has8(b, p + 1, k + 8) THEN Refused
           ELSE DecVals(b, p + 1 + k + 8, n - 1, Append(acc, <<Slice(b, p + 1, k), Slice(b, p + 1 + k, 8)>>))

RECURSIVE DecLayers(_, _, _, _)
DecLayers(b, p, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, at |-> p, v |-> acc]
  ELSE LET l == DecLayer(b, p)
       IN  IF ~l.ok THEN Refused ELSE DecLayers(b, l.at, n - 1, Append(acc, l.v))

\* Negative numbers: the sign bit, except for -0.
Negative(f) == f[8] >= 128 /\ f # <<0, 0, 0, 0, 0, 0, 0, 128>> /\ ~((f[8] = 255 /\ f[7] >= 240) /\ ~(f[7] = 240 /\ \A i \in 1 .. 6 : f[i] = 0))

DecModel(b, p) ==
  IF ~Has8(b, p, 30) THEN Refused
  ELSE IF Slice(b, p, 4) # ModelMagic THEN Refused
  ELSE LET n == S8(b[p + 9])
           in == GetInt32(b, p + 10)
           out == GetInt32(b, p + 14)
           nv == S8(b[p + 29])
       IN  IF n < 0 \/ nv < 0 \/ b[p + 18] > 3 \/ b[p + 28] > 1 \/ Negative(Slice(b, p + 20, 8)) THEN Refused
           ELSE LET V == DecVals(b, p + 30, nv, <<>>)
                IN  IF ~V.ok THEN Refused
                    ELSE LET L == DecLayers(b, V.at, n, <<>>)
                         IN  IF ~L.ok THEN Refused
                             ELSE IF (\E i \in 1 .. n - 1 : L.v[i].out # L.v[i + 1].in) \/ (n > 0 /\ L.v[n].out # out) \/ (n = 0 /\ out # 0) THEN Refused
                             ELSE [ok |-> TRUE, at |-> L.at,
                                   v |-> [version |-> Slice(b, p + 4, 5), in |-> in, out |-> out, loss |-> b[p + 18], acc |-> S8(b[p + 19]),
                                          prec |-> Slice(b, p + 20, 8), opt |-> b[p + 28], vals |-> V.v, layers |-> L.v]]

\* ---- what the format leaves open ----
\* Data of the right layout whose contents contradict themselves or make no sense for training: a
\* loader may accept or refuse it, but must not make anything else of it.
Val(m, k) == m.vals[CHOOSE i \in 1 .. Len(m.vals) : m.vals[i][1] = KeyBytes[k]][2]
ProperVals(m) ==
  LET o == OptNames[m.opt + 1]
  IN  /\ Len(m.vals) = Cardinality(KeysOf(o))
      /\ \A k \in KeysOf(o) : \E i \in 1 .. Len(m.vals) : m.vals[i][1] = KeyBytes[k]
NotFinite(f) == f[8] % 128 = 127 /\ f[7] >= 240
IsZero(f) == \A i \in 1 .. 7 : f[i] = 0
Proper(m) ==
  /\ Len(m.layers) >= 1 => m.in = m.layers[1].in
  /\ Len(m.layers) >= 1
  /\ m.acc \in 0 .. 2
  /\ ~NotFinite(m.prec)
  /\ ProperVals(m)
  /\ ~Negative(Val(m, "learningRate")) /\ ~IsZero(Val(m, "learningRate")) /\ ~NotFinite(Val(m, "learningRate"))
  /\ \A k \in {"decay", "momentum"} \cap KeysOf(OptNames[m.opt + 1]) : ~Negative(Val(m, k)) /\ ~NotFinite(Val(m, k))
\* slope of a leaky layer not negative, rate of a dropout layer in 0..1
ProperLayer(l) ==
  /\ l.code = 3 => ~Negative(l.slope) /\ ~NotFinite(l.slope)
  /\ l.code = 5 => (~Negative(l.drop) /\ (l.drop[8] < 63 \/ (l.drop[8] = 63 /\ (l.drop[7] < 240 \/ (l.drop[7] = 240 /\ \A i \in 1 .. 6 : l.drop[i] = 0)))))
ProperModel(m) == Proper(m) /\ \A i \in 1 .. Len(m.layers) : ProperLayer(m.layers[i])
=============================================================================
