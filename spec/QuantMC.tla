------------------------------- MODULE QuantMC -------------------------------
(* The design of quantisation, exhaustively on a small scale: what one save    *)
(* does to one value, and what repeated saves of three points in a plane do,   *)
(* where every save measures the box and the shortest edge of the generation   *)
(* before. Tolerances are 1/Q of the shortest edge.                            *)
EXTENDS Quant, TLC
CONSTANTS Part,   \* "codes" or "gens"
          L,      \* a multiple of all grids up to B bits
          B,      \* bits looked at
          Q, Spans, Steps, Rounding
VARIABLES st, pts, gen, base
vars == <<st, pts, gen, base>>

------------------------------------------------------------------------------
(* One value: st = <<value, bits, tolerance in units of span / 2^bits>> *)
Code(x, span, b) == IF Rounding THEN Enc(x, span, b) ELSE (x * Grid(b)) \div span
CodesInit == (\E b \in 1..B : \E h \in 0..(L \div 1000) : \E r \in 0..999 : 1000 * h + r <= L /\ st = <<1000 * h + r, b>>) /\ pts = <<>> /\ gen = 0 /\ base = <<>>
One(x, b) == LET c == Code(x, L, b)
                 y == Dec(c, L, b)
             IN /\ c \in 0..Grid(b)
                /\ Abs(y - x) * 2 * Grid(b) <= L              \* half a step
                /\ Abs(y - x) * Pow2(b) <= L                  \* so within the tolerance which asked for b bits
                /\ Code(y, L, b) = c                          \* saving again gives the same code
                /\ (x = 0 => y = 0) /\ (x = L => y = L)       \* the box stays
CodesRight == Part = "codes" => One(st[1], st[2])

------------------------------------------------------------------------------
(* Three points <<x, y>> of one triangle *)
Span(P, c) == MaxOf({P[i][c] : i \in 1..Len(P)}) - MinOf({P[i][c] : i \in 1..Len(P)})
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Edges(P) == {D2(P[i], P[j]) : i, j \in 1..Len(P)} \ {0}
\* Fewest bits b >= 1 with span <= tol * 2^b, tol being edge/Q
RECURSIVE BitsFrom(_, _, _)
BitsFrom(span2, e2, b) ==
  \* span^2 * Q^2 <= e2 * 4^b, without leaving 32 bits
  IF (IF Pow2(b) <= Q THEN span2 * (Q \div Pow2(b)) * (Q \div Pow2(b)) <= e2
      ELSE CeilDiv(span2, (Pow2(b) \div Q) * (Pow2(b) \div Q)) <= e2) \/ b > B
  THEN b ELSE BitsFrom(span2, e2, b + 1)
BitsOf(P, c) == LET s == Span(P, c)
                IN IF s = 0 \/ Edges(P) = {} THEN 1 ELSE BitsFrom(s * s, MinOf(Edges(P)), 1)
Fine(P) == \A c \in 1..2 : BitsOf(P, c) <= B
Saved(P) ==
  [i \in 1..Len(P) |-> [c \in 1..2 |->
     LET lo == MinOf({P[j][c] : j \in 1..Len(P)})
         s == Span(P, c)
         b == BitsOf(P, c)
     IN IF s = 0 THEN P[i][c] ELSE lo + Dec(Code(P[i][c] - lo, s, b), s, b)]]
GensInit == /\ st = <<>> /\ gen = 0
            /\ \E sx, sy \in Spans : \E a \in {x \in 0..sx : x % Steps = 0} : \E c \in {y \in 0..sy : y % Steps = 0} :
               \E h \in {<<0, c, sy>>, <<0, sy, c>>, <<c, 0, sy>>, <<sy, 0, c>>, <<c, sy, 0>>, <<sy, c, 0>>} :
                  pts = <<<<0, h[1]>>, <<a, h[2]>>, <<sx, h[3]>>>>
            /\ Edges(pts) # {} /\ Fine(pts)
            /\ base = <<>>
GensNext == /\ Part = "gens" /\ gen < 4 /\ Fine(pts)
            /\ pts' = Saved(pts) /\ gen' = gen + 1
            /\ base' = IF gen = 0 THEN <<pts, Saved(pts), MinOf(Edges(pts))>> ELSE base
            /\ UNCHANGED st
Within(P, R, e2) == \A i \in 1..Len(P) : \A c \in 1..2 : (Q * (P[i][c] - R[i][c])) * (Q * (P[i][c] - R[i][c])) <= e2
\* The first save moves nothing by more than the tolerance, and all later ones together nothing by more than that again
Accurate == gen = 1 => Within(base[1], base[2], base[3])
NoDrift == gen > 1 => Within(base[2], pts, base[3])
\* With equal bits a save is the identity
Stable == (gen > 0 /\ Fine(pts) /\ \A c \in 1..2 : BitsOf(pts, c) = BitsOf(base[1], c)) => (gen > 1 \/ Saved(pts) = pts)
Init == IF Part = "codes" THEN CodesInit ELSE GensInit
Next == GensNext
==============================================================================
