-------------------------------- MODULE Bits --------------------------------
(* Bits, bytes and 64 bit numbers for TLC, whose integers have 32 bits.      *)
(* A 64 bit number is a tuple of four 16 bit limbs, most significant first.  *)
EXTENDS Integers, Sequences

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
        131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216>>
Pow2(n) == P2[n + 1]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

\* n <= 16 bits which start at bit o (from 0) of the bytes of B after the first b. The bytes must exist.
Field(B, b, o, n) ==
  IF n = 0 THEN 0
  ELSE LET k == b + (o \div 8) + 1
           sh == o % 8
           last == (sh + n + 7) \div 8          \* bytes touched: 1..3
           b1 == B[k]
           b2 == IF last >= 2 THEN B[k + 1] ELSE 0
           b3 == IF last >= 3 THEN B[k + 2] ELSE 0
       IN ((b1 * 65536 + b2 * 256 + b3) \div Pow2(24 - sh - n)) % Pow2(n)

\* w <= 64 bits as limbs
Wide(B, b, o, w) ==
  [i \in 1..4 |->
     LET hi == w - 64 + 16 * i                  \* bits of the number at or above the end of this limb
         n == IF hi <= 0 THEN 0 ELSE Min2(16, hi)
     IN Field(B, b, o + hi - n, n)]

\* Limbs of at most 64 bits given most significant first
LimbsOfBits(s) ==
  [i \in 1..4 |->
     LET hi == Len(s) - 64 + 16 * i
         n == IF hi <= 0 THEN 0 ELSE Min2(16, hi)
         f[j \in 0..n] == IF j = 0 THEN 0 ELSE 2 * f[j - 1] + s[hi - n + j]
     IN f[n]]

\* The w low bits of a number, most significant first
BitsOfLimbs(v, w) ==
  [j \in 1..w |-> LET p == 64 - w + j IN (v[((p - 1) \div 16) + 1] \div Pow2(15 - ((p - 1) % 16))) % 2]

Zero64 == <<0, 0, 0, 0>>
\* Sum, with the carry out of the highest limb as fifth element in front
Add64(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div 65536
      s2 == a[2] + b[2] + s3 \div 65536
      s1 == a[1] + b[1] + s2 \div 65536
  IN <<s1 \div 65536, s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
Fits32(v) == v[1] = 0 /\ v[2] = 0
\* u32 as the 32 bit integer with the same bits
I32(v) == IF v[3] < 32768 THEN v[3] * 65536 + v[4] ELSE (v[3] - 65536) * 65536 + v[4]

\* Little endian numbers in the bytes of B after the first p
U16(B, p) == B[p + 1] + 256 * B[p + 2]
U32L(B, p) == <<0, 0, U16(B, p + 2), U16(B, p)>>
U64L(B, p) == <<U16(B, p + 6), U16(B, p + 4), U16(B, p + 2), U16(B, p)>>
Bytes16(n) == <<n % 256, n \div 256>>
Bytes64(v) == Bytes16(v[4]) \o Bytes16(v[3]) \o Bytes16(v[2]) \o Bytes16(v[1])
Bytes32(v) == Bytes16(v[4]) \o Bytes16(v[3])
\* More than 2^31
Over31(v) == v[1] > 0 \/ v[2] > 0 \/ v[3] > 32768 \/ (v[3] = 32768 /\ v[4] > 0)
\* A count, 2^31 and above becoming the greatest integer
Cnt(v) == IF v[1] > 0 \/ v[2] > 0 \/ v[3] >= 32768 THEN 2147483647 ELSE v[3] * 65536 + v[4]
\* An integer >= 0 as limbs
L64(n) == <<0, 0, n \div 65536, n % 65536>>
\* A 32 bit pattern given as I32 as limbs
L32(i) == IF i >= 0 THEN L64(i)
          ELSE LET j == (i + 2147483647) + 1 IN <<0, 0, 32768 + j \div 65536, j % 65536>>
\* Limbs as integer if below 2^31
ToInt(v) == v[3] * 65536 + v[4]

\* Pads to whole bytes
PadTo(s, m) == LET r == Len(s) % m IN IF r = 0 THEN s ELSE s \o [i \in 1..(m - r) |-> 0]
BytesOfBits(s) ==
  LET p == PadTo(s, 8)
  IN [i \in 1..(Len(p) \div 8) |->
        128 * p[8 * i - 7] + 64 * p[8 * i - 6] + 32 * p[8 * i - 5] + 16 * p[8 * i - 4]
        + 8 * p[8 * i - 3] + 4 * p[8 * i - 2] + 2 * p[8 * i - 1] + p[8 * i]]
BitsOfBytes(b) ==
  [i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div Pow2(7 - ((i - 1) % 8))) % 2]
=============================================================================
