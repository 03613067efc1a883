------------------------------ MODULE TmfValues ------------------------------
(* The values that quantised blocks of a file denote, in integer units.        *)
EXTENDS TmfFile

\* A double in the bytes of B after the first p, times 2^k, if that is an integer of at most 20 significant bits
F64Exp(B, p) == (B[p + 8] % 128) * 16 + B[p + 7] \div 16
F64Nice(B, p) == B[p + 1] = 0 /\ B[p + 2] = 0 /\ B[p + 3] = 0 /\ B[p + 4] = 0
F64Zero(B, p) == \A i \in 1..7 : B[p + i] = 0 /\ B[p + 8] \in {0, 128}
F64Units(B, p, k) ==
  IF F64Zero(B, p) THEN 0
  ELSE LET m == 1048576 + (B[p + 7] % 16) * 65536 + B[p + 6] * 256 + B[p + 5]
           e == F64Exp(B, p) - 1023 - 20 + k
           a == IF e >= 0 THEN (IF e <= 9 THEN m * Pow2(e) ELSE 2147483647)
                ELSE IF e >= -20 THEN m \div Pow2(-e) ELSE 0
       IN IF B[p + 8] >= 128 THEN -a ELSE a

\* Sum of the first n elements of ws
Before(ws, n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + ws[i] IN S[n]
\* Of wide codes the highest bits are looked at
Digits(w) == IF w > 12 THEN 12 ELSE w
\* What the others may add
Rest(w, lo, hi) == IF w > 12 THEN (hi - lo) \div 4096 + 2 ELSE 0
\* Code number c (from 1) of element i (from 1) of a block
Code(B, b, i, c) == Field(B, b.at, (i - 1) * Before(b.ws, Len(b.ws)) + Before(b.ws, c - 1), Digits(b.ws[c]))
\* A flag bit of a direction (flags are the first component, widths of the codes follow)
Flag(B, b, i, f) == Field(B, b.at, (i - 1) * Before(b.ws, 3) + f - 1, 1)

\* Block and place in it of element i (from 1) of an array of blocks
RECURSIVE Locate(_, _, _)
Locate(bl, k, i) == IF i <= bl[k].cnt THEN <<k, i>> ELSE Locate(bl, k + 1, i - bl[k].cnt)

\* code / (2^w - 1) of the way from lo to hi, rounded down
Between(code, w, lo, hi) == IF w = 0 THEN lo
                            ELSE LET g == Pow2(Digits(w)) - 1
                                 IN lo + code * ((hi - lo) \div g) + (code * ((hi - lo) % g)) \div g
==============================================================================
