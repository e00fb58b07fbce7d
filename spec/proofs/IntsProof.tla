----------------------------- MODULE IntsProof ------------------------------
(* C20, for every integer that has the room: what is read is what was        *)
(* written, and every byte is one.  Proved with tlapm.                       *)
EXTENDS Ints, TLAPS

In32(x) == x \in Int /\ Up(Up(Up(x))) \in -128 .. 127
Byte == 0 .. 255

LEMMA Split == ASSUME NEW x \in Int PROVE Up(x) \in Int /\ x % 256 \in Byte /\ x = 256 * Up(x) + (x % 256)
BY DEF Up, Byte

LEMMA OneByte == ASSUME NEW x \in -128 .. 127 PROVE S8(x % 256) = x /\ x % 256 \in Byte
BY DEF S8, Byte

THEOREM Bytes == ASSUME NEW x, In32(x) PROVE Int32(x) \in [1 .. 4 -> Byte]
<1>1. x \in Int /\ Up(x) \in Int /\ Up(Up(x)) \in Int /\ Up(Up(Up(x))) \in Int BY Split DEF In32
<1>2. x % 256 \in Byte /\ Up(x) % 256 \in Byte /\ Up(Up(x)) % 256 \in Byte /\ Up(Up(Up(x))) % 256 \in Byte BY <1>1, Split
<1> QED BY <1>2 DEF Int32

THEOREM ReadBack == ASSUME NEW x, In32(x) PROVE GetInt32(Int32(x), 1) = x
<1>1. x \in Int /\ Up(x) \in Int /\ Up(Up(x)) \in Int /\ Up(Up(Up(x))) \in -128 .. 127 BY Split DEF In32
<1> DEFINE b == Int32(x)
<1>2. b[1] = x % 256 /\ b[2] = Up(x) % 256 /\ b[3] = Up(Up(x)) % 256 /\ b[4] = Up(Up(Up(x))) % 256 BY DEF Int32
<1> HIDE DEF b
<1>3. S8(b[4]) = Up(Up(Up(x))) BY <1>1, <1>2, OneByte
<1>4. Up(Up(x)) = 256 * Up(Up(Up(x))) + b[3] BY <1>1, <1>2, Split
<1>5. Up(x) = 256 * Up(Up(x)) + b[2] BY <1>1, <1>2, Split
<1>6. x = 256 * Up(x) + b[1] BY <1>1, <1>2, Split
<1>7. b[1] \in Int /\ b[2] \in Int /\ b[3] \in Int BY <1>1, <1>2, Split DEF Byte
<1> DEFINE u == Up(Up(Up(x)))
           v == Up(Up(x))
           w == Up(x)
<1>8. GetInt32(b, 1) = b[1] + 256 * (b[2] + 256 * (b[3] + 256 * u)) BY <1>3 DEF GetInt32
<1>9. u \in Int /\ v \in Int /\ w \in Int /\ v = 256 * u + b[3] /\ w = 256 * v + b[2] /\ x = 256 * w + b[1] BY <1>1, <1>4, <1>5, <1>6
<1> HIDE DEF u, v, w
<1>10. GetInt32(b, 1) = x BY <1>7, <1>8, <1>9
<1> QED BY <1>10 DEF b
=============================================================================
