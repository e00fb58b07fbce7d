-------------------------------- MODULE Ints --------------------------------
(* Integers in files: little-endian, two's complement, one and four bytes.  *)
EXTENDS Integers, Sequences

Up(x) == x \div 256
Int8(x) == <<x % 256>>
Int32(x) == <<x % 256, Up(x) % 256, Up(Up(x)) % 256, Up(Up(Up(x))) % 256>>
S8(x) == IF x < 128 THEN x ELSE x - 256
GetInt32(b, p) == b[p] + 256 * (b[p + 1] + 256 * (b[p + 2] + 256 * S8(b[p + 3])))
=============================================================================
