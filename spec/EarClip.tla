------------------------------- MODULE EarClip -------------------------------
(* Cutting ears off a polygon, whichever ear is taken next: the triangles       *)
(* always cover the polygon. Polygons with corners that coincide are included.  *)
EXTENDS Obj, TLC
CONSTANTS MaxCorners, Points
VARIABLES face, poly, tris
vars == <<face, poly, tris>>
Init == /\ face \in UNION {[1..n -> 1..Points] : n \in 4..MaxCorners}
                    \union {[i \in 1..n |-> i] : n \in 4..(MaxCorners + 3)}
        /\ poly = face /\ tris = <<>>
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Cut == /\ Len(poly) >= 3
       /\ \E k \in 1..Len(poly) :
            LET n == Len(poly)
                prev == ((k + n - 2) % n) + 1
                next == (k % n) + 1
            IN /\ tris' = Append(tris, <<poly[prev], poly[k], poly[next]>>)
               /\ poly' = IF n = 3 THEN <<>> ELSE Without(poly, k)
       /\ UNCHANGED face
Next == Cut
Covered == poly = <<>> => Covers(face, tris)
==============================================================================
