-------------------------------- MODULE Quant --------------------------------
(* Quantisation as the format does it: a value in a box is saved as the        *)
(* nearest of 2^b equally spaced ones, both borders included.                  *)
EXTENDS Integers, Sequences, FiniteSets

Pow2(n) == 2^n
Grid(b) == Pow2(b) - 1
\* x in 0..span to a code, rounding to nearest
Enc(x, span, b) == IF span = 0 THEN 0 ELSE (2 * x * Grid(b) + span) \div (2 * span)
\* Value of a code; span must be a multiple of Grid(b) for the value to be an integer
Dec(c, span, b) == c * (span \div Grid(b))

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
CeilDiv(a, b) == -((-a) \div b)

\* Integer square root, rounded down
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Isqrt(n) == IF n < 2 THEN n ELSE Newton(n, IF n >= 1048576 THEN 46341 ELSE 1024)
\* Powers of 4 which fit: square roots with as many digits as there is room for
RECURSIVE Room(_, _)
Room(n, k) == IF n > 536870911 THEN k ELSE Room(4 * n, k + 1)
==============================================================================
