----------------------------- MODULE QuantTrace ------------------------------
(* Validates what saving and loading real meshes did to their values.          *)
(*                                                                             *)
(* Numbers of a mesh, as integers:                                             *)
(*  v   coordinates <<k, r>>: k units of the lattice of the episode and r      *)
(*      parts of it, 2^j parts to the unit; coordinates saved have r = 0       *)
(*  n,t [c, az, z, m, h, sg]: components in 2^-14; azimuth in quarter turns    *)
(*      and z in 2^-24; m how far the length is from 1 in 2^-24; h sign of the *)
(*      hand (0: none), sg sign bits of the components                             *)
(*  u   2^-28                                                                  *)
(*  c   [name, kind, a]: integers as they are, floats in 2^-10 of the          *)
(*      precision of the array, colours in 2^-24                               *)
(*  lv, ln, lu, lt  how many there are of each: elements of large arrays which  *)
(*      repeat in all meshes of the episode are listed once                    *)
(* Fields id are tokens of values compared exactly.                            *)
EXTENDS Quant, Json, IOUtils, TLC
CONSTANT Prop
VARIABLES src,    \* the mesh saved last: 0 or the number of the event
          sav,    \* the save event
          first,  \* the event of the load of the first generation
          s, l, verdict
vars == <<src, sav, first, s, l, verdict>>
T == ndJsonDeserialize(IOEnv.TRACE)
E(k) == T[s].ev[k]
Ev == E(l)

------------------------------------------------------------------------------
(* Vertices. The tolerance is p/2^q of the shortest edge, or of a tenth of a   *)
(* length of 1.                                                                *)
\* Squared length of an edge in units, 0 for corners which do not exist
Edge2(m, a, b) == IF a < 0 \/ b < 0 \/ a >= Len(m.v) \/ b >= Len(m.v) THEN 0
                  ELSE LET d(c) == m.v[a + 1][c][1] - m.v[b + 1][c][1] IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
Valid(m, t) == \A c \in 1..3 : m.vt[3 * t + c] >= 0 /\ m.vt[3 * t + c] < Len(m.v)
Triangles(m) == {t \in 0..(Len(m.vt) \div 3 - 1) : Valid(m, t)}
Edges2(m) == UNION {LET a == m.vt[3 * t + 1]
                        b == m.vt[3 * t + 2]
                        c == m.vt[3 * t + 3]
                    IN {Edge2(m, a, b), Edge2(m, b, c), Edge2(m, c, a)} : t \in Triangles(m)} \ {0}
\* x * 2^e, rounded up
Shift(x, e) == IF e >= 0 THEN x * Pow2(e) ELSE IF e < -30 THEN (IF x > 0 THEN 1 ELSE 0) ELSE CeilDiv(x, Pow2(-e))
\* Tolerance in parts. p < 2^15 and the scaled root < 2^15.5
VertTol(m, set) ==
  IF Edges2(m) = {} THEN set.none
  ELSE LET e2 == MinOf(Edges2(m))
           k == Room(e2, 0)
           root == Isqrt(e2 * Pow2(2 * k)) + 1
       IN Shift(set.p * root, set.j - set.q - k)
\* Rounding of 24 bit floats on the way: relative to the coordinates and to the box
Slack(m, set) ==
  LET big == MaxOf({0} \union {Abs(m.v[i][c][1]) : i \in 1..Len(m.v), c \in 1..3})
  IN Shift(big + 1, set.j - (IF set.fine THEN 48 ELSE 20)) + Shift(set.off, set.j - (IF set.fine THEN 50 ELSE 22)) + 2
VertClose(a, b, tol, j) == /\ Abs(a[1] - b[1]) <= 65536 \div Pow2(IF j > 15 THEN 15 ELSE j) + tol \div Pow2(j) + 1
                           /\ Abs((a[1] - b[1]) * Pow2(j) + (a[2] - b[2])) <= tol
VertsKept(m, d, from, set) ==
  LET tol == VertTol(m, set)
      all == tol + tol \div 4096 + 1 + Slack(m, set)
  IN \A i \in 1..Len(from) : \A c \in 1..3 : VertClose(from[i][c], d[i][c], all, set.j)

------------------------------------------------------------------------------
(* Directions. set: a the angle as azimuth in 2^-24 quarter turns, z the same  *)
(* in radians in 2^-24, fuzz rounding of azimuths                              *)
Turn == 67108864
AzDist(a, b) == LET d == Abs(a - b) IN IF d > Turn - d THEN Turn - d ELSE d
One24 == 16777216
\* One quantisation step is at most 4/pi of the angle
StepOf(set) == set.z + set.z \div 3
AtPole(x, set) == One24 - Abs(x.z) <= StepOf(set) + x.m
\* In double precision: as above, with 24 more bits (azf, zf) where the coarse distance is small
Fine(d, f) == IF Abs(d) <= 8 THEN Abs(d * One24 + f) ELSE 134217728
AzDiff(a, b) == ((a - b + Turn \div 2) % Turn) - Turn \div 2
DirFine(x, y, set) ==
  /\ \/ AtPole(x, set) \/ AtPole(y, set)
     \/ set.af >= 134217728 \/ Fine(AzDiff(x.az, y.az), x.azf - y.azf) <= set.af + 256
  /\ set.zf >= 134217728 \/ Fine(x.z - y.z, x.zf - y.zf) <= set.zf + 256
DirClose(x, y, set) ==
  /\ \/ AtPole(x, set) \/ AtPole(y, set)
     \/ AzDist(x.az, y.az) <= set.a + set.fuzz
  /\ Abs(x.z - y.z) <= set.z + x.m + 16
  /\ x.h = y.h
  /\ set.fine => DirFine(x, y, set)
UnitLen(y) == Abs(y.c[1] * y.c[1] + y.c[2] * y.c[2] + y.c[3] * y.c[3] - 268435456) <= 131072
SameOctant(x, y, set) == \A c \in 1..3 : (Abs(x.c[c]) - 1) * 1024 > StepOf(set) => (IF x.c[c] > 0 THEN y.c[c] >= 0 ELSE y.c[c] <= 0)
DirsKept(a, d, set) == \A i \in 1..Len(a) : DirClose(a[i], d[i], set) /\ UnitLen(d[i]) /\ SameOctant(a[i], d[i], set)
DirsNear(a, d, set) == \A i \in 1..Len(a) : DirClose(a[i], d[i], set) /\ a[i].sg = d[i].sg

UvsKept(a, d, tol, set) == \A i \in 1..Len(a) : \A c \in 1..2 : d[i][c] \in 0..268435456 /\ Abs(a[i][c] - d[i][c]) <= tol + (IF set.fine THEN 2 ELSE 32)

------------------------------------------------------------------------------
(* Custom data: name tokens; found is what looking up each name gave *)
FirstOf(c, name) == LET hit == {i \in 1..Len(c) : c[i].name = name}
                    IN IF hit = {} THEN [name |-> name, kind |-> "none", a |-> <<>>, tol |-> 0] ELSE c[MinOf(hit)]
\* Floats of 24 bits: rounding relative to the largest value
FloatSlack(x, fine) == IF fine THEN 4 ELSE CeilDiv(MaxOf({0} \union {Abs(x.a[i]) : i \in 1..Len(x.a)}), 1048576) + 2
CustomClose(x, y, fine) ==
  CASE x.kind \in {"index", "int"} -> x.a = y.a
    [] x.kind = "float" -> LET tol == 1024 + FloatSlack(x, fine) IN \A i \in 1..Len(x.a) : Abs(x.a[i] - y.a[i]) <= tol
    [] x.kind = "rgba" -> \A i \in 1..Len(x.a) : \A c \in 1..4 : Abs(x.a[i][c] - y.a[i][c]) <= x.tol + (IF fine THEN 2 ELSE 16)
    [] OTHER -> TRUE
CustomsKept(c, q, fine) ==
  \A i \in 1..Len(q) : LET x == FirstOf(c, q[i].name)
                       IN x.kind = q[i].kind /\ Len(x.a) = Len(q[i].a) /\ CustomClose(x, q[i], fine)

------------------------------------------------------------------------------
Counts(m, d) == m.hv = d.hv /\ m.hn = d.hn /\ m.hu = d.hu /\ m.ht = d.ht /\ m.lv = d.lv /\ m.ln = d.ln
                /\ m.lu = d.lu /\ m.lt = d.lt
TraceInit == s \in 1..Len(T) /\ l = 1 /\ verdict = "run" /\ src = 0 /\ sav = 0 /\ first = 0
Live == verdict = "run" /\ l <= Len(T[s].ev)
Step == l' = l + 1 /\ UNCHANGED <<s, verdict>>
Reject(why) == /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why]))
               /\ verdict' = "rejected" /\ UNCHANGED <<src, sav, first, s, l>>
M == E(src).mesh
Set == T[s].set

TMesh == Live /\ Ev.op = "mesh" /\ Step /\ src' = l /\ sav' = 0 /\ first' = 0
\* A save of the current mesh: its bytes and the mesh afterwards, as tokens
TSave ==
  /\ Live /\ Ev.op = "save"
  /\ IF Ev.res # "ok" THEN Reject("saving failed: " \o Ev.res)
     ELSE IF Prop = "C21" /\ Ev.after # E(src).id THEN Reject("saving changed the mesh")
     ELSE IF Prop = "C21" /\ sav > 0 /\ E(sav).bytes # Ev.bytes THEN Reject("saving again gave other bytes")
     ELSE Step /\ sav' = l /\ UNCHANGED <<src, first>>
Why(d) ==
  IF ~Counts(M, d) THEN "the number of elements changed"
  ELSE IF Prop \in {"C02", "C27"} /\ ~VertsKept(M, d.v, M.v, Set.v) THEN "a vertex moved by more than the tolerance"
  ELSE IF Prop \in {"C03", "C27"} /\ ~DirsKept(M.n, d.n, Set.n) THEN "a normal moved or lost its length or signs"
  ELSE IF Prop \in {"C03", "C27"} /\ ~DirsKept(M.t, d.t, Set.t) THEN "a tangent moved or lost its length, signs or handedness"
  ELSE IF Prop \in {"C04", "C27"} /\ ~UvsKept(M.u, d.u, Set.u, Set.v) THEN "an uv moved by more than the tolerance or left [0,1]"
  ELSE IF Prop \in {"C05", "C27"} /\ ~CustomsKept(M.c, d.c, Set.v.fine) THEN "custom data changed"
  ELSE "ok"
\* Later generations against the first. m is the mesh the tolerances come from
Drift(f, d, m) ==
  IF Ev.id # E(first).id THEN "names, attributes, indices, integers, colours, uvs, signs or handedness changed after the first generation"
  ELSE IF ~Counts(f, d) THEN "the number of elements changed after the first generation"
  ELSE IF ~VertsKept(m, d.v, f.v, Set.v) THEN "vertices drift"
  ELSE IF ~DirsNear(f.n, d.n, Set.n) THEN "normals drift"
  ELSE IF ~DirsNear(f.t, d.t, Set.t) THEN "tangents drift"
  ELSE IF ~CustomsKept(f.c, d.c, Set.v.fine) THEN "custom floats drift"
  ELSE "ok"
TLoad ==
  /\ Live /\ Ev.op = "load"
  /\ IF Ev.res # "ok" THEN Reject("a saved file does not load: " \o Ev.res)
     ELSE IF Prop # "C21"
       THEN LET w == Why(Ev.mesh) IN IF w # "ok" THEN Reject(w) ELSE Step /\ UNCHANGED <<src, sav, first>>
     ELSE IF first = 0 THEN Step /\ first' = l /\ UNCHANGED <<src, sav>>
     ELSE LET w == Drift(E(first).mesh, Ev.mesh, M) IN IF w # "ok" THEN Reject(w) ELSE Step /\ UNCHANGED <<src, sav, first>>
\* A loaded mesh is saved again
TAgain ==
  /\ Live /\ Ev.op = "again"
  /\ IF Ev.res # "ok" THEN Reject("saving a loaded mesh failed: " \o Ev.res) ELSE Step /\ UNCHANGED <<src, sav, first>>
TFault == Live /\ Ev.op = "fault" /\ Reject(Ev.of \o " ended with a " \o Ev.what)
TEnd == verdict = "run" /\ l > Len(T[s].ev) /\ verdict' = "accepted" /\ UNCHANGED <<src, sav, first, s, l>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TMesh \/ TSave \/ TLoad \/ TAgain \/ TFault \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
