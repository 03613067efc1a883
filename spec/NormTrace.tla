------------------------------ MODULE NormTrace ------------------------------
(* Validates normalizing of real meshes. A normal before is a vector k of      *)
(* integers up to 2^13 times any scale (k = 0: the zero vector); a normal      *)
(* after is in 2^-14. Everything else of a mesh is a token.                    *)
EXTENDS Quant, Json, IOUtils, TLC
CONSTANT Prop
VARIABLES s, l, verdict, m
vars == <<s, l, verdict, m>>
T == ndJsonDeserialize(IOEnv.TRACE)
Ev == T[s].ev[l]

Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Zero(k) == k[1] = 0 /\ k[2] = 0 /\ k[3] = 0
\* Length 1 up to 2^-12
UnitLen(r) == (\A c \in 1..3 : Abs(r[c]) <= 16400) /\ Abs(Sq(r) - 268435456) <= 131072
\* r points where k points: parallel up to rounding by half a unit in every component
Parallel(k, r) ==
  LET big == MaxOf({Abs(k[c]) : c \in 1..3})
      x(a, b) == k[a] * r[b] - k[b] * r[a]
      tol == 2 * big + 2
  IN Dot(k, r) > 0 /\ Abs(x(1, 2)) <= tol /\ Abs(x(2, 3)) <= tol /\ Abs(x(3, 1)) <= tol
\* fin: all components are finite
Right(k, r, fin) == fin /\ (~Zero(k) => UnitLen(r) /\ Parallel(k, r))

\* The design: the nearest point to k/|k| in 2^-14 satisfies the relation (checked on all small k)
Nearest(a, k) == LET t == Room(Sq(k), 0)
                     n == Isqrt(Sq(k) * Pow2(2 * t))   \* 2^t |k|
                 IN (IF a < 0 THEN -1 ELSE 1) * ((Abs(a) * 2 * 16384 * Pow2(t) + n) \div (2 * n))

TraceInit == s \in 1..Len(T) /\ l = 1 /\ verdict = "run" /\ m = 0
Live == verdict = "run" /\ l <= Len(T[s].ev)
Reject(why) == PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why])) /\ verdict' = "rejected" /\ UNCHANGED <<s, l, m>>
Advance == l' = l + 1 /\ UNCHANGED <<s, verdict>>
\* has: the mesh has normals; k: those; rest: a token of everything else
TMesh == Live /\ Ev.op = "mesh" /\ Advance /\ m' = [has |-> Ev.has, k |-> Ev.k, rest |-> Ev.rest]
TNormalize ==
  /\ Live /\ Ev.op = "normalize"
  /\ IF Ev.rest # m.rest THEN Reject("normalizing changed more than normals")
     ELSE IF Ev.has # m.has \/ Len(Ev.r) # Len(m.k) THEN Reject("normalizing changed the number of normals")
     ELSE IF \E i \in 1..Len(Ev.r) : ~Right(m.k[i], Ev.r[i], Ev.fin[i]) THEN Reject("a normal is not the unit vector of its direction")
     ELSE Advance /\ UNCHANGED m
TVerify ==
  /\ Live /\ Ev.op = "verify"
  /\ IF Ev.fault /\ \A i \in 1..Len(m.k) : ~Zero(m.k[i]) THEN Reject("normalized normals do not verify")
     ELSE Advance /\ UNCHANGED m
TFault == Live /\ Ev.op = "fault" /\ Reject(Ev.of \o " ended with a " \o Ev.what)
TEnd == verdict = "run" /\ l > Len(T[s].ev) /\ verdict' = "accepted" /\ UNCHANGED <<s, l, m>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TMesh \/ TNormalize \/ TVerify \/ TFault \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
