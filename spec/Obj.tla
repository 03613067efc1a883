--------------------------------- MODULE Obj ---------------------------------
(* Reading and writing .obj text, as lines.                                    *)
(* A line is [k, val, c, name]: k is "v", "n" or "u" (an element, val a token   *)
(* of its numbers), "f" (a face of corners c: <<v, u, n>>, 1-based indices, 0   *)
(* where there is none), "o" (a name), "skip" (blank, comment, unknown), "bad"  *)
(* (a malformed element or face) or "free" (its meaning is left open).          *)
(* A mesh read is [name, faces]: faces of corners <<v, u, n>>, tokens, 0 where  *)
(* there is none.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
RangeOf(q) == {q[i] : i \in 1..Len(q)}

StartObj == [vs |-> <<>>, us |-> <<>>, ns |-> <<>>, faces |-> <<>>, name |-> "", out |-> <<>>, st |-> "run", big |-> FALSE]
Val(q, i) == IF i = 0 THEN 0 ELSE q[i]
Uniform(c) == Cardinality({<<c[i][2] = 0, c[i][3] = 0>> : i \in 1..Len(c)}) <= 1
\* tri: faces with more than three corners are triangulated
\* Once an index is larger than a build can hold (max), the text may be refused: big
ReadFace(o, c, tri, max) ==
  LET undef(k, q) == \E i \in 1..Len(c) : c[i][k] > Len(q)
      put == [o EXCEPT !.big = @ \/ (\E i \in 1..Len(c) : \E k \in 1..3 : c[i][k] > max),
                       !.faces = Append(@, [i \in 1..Len(c) |-> <<Val(o.vs, c[i][1]), Val(o.us, c[i][2]), Val(o.ns, c[i][3])>>])]
  IN IF Len(c) < 3 THEN [o EXCEPT !.st = "err"]
     ELSE IF Len(c) > 3 /\ ~tri THEN [o EXCEPT !.st = "free"]
     ELSE IF Len(c) > 3 /\ undef(1, o.vs) THEN [o EXCEPT !.st = "err"]
     ELSE IF undef(1, o.vs) \/ undef(2, o.us) \/ undef(3, o.ns) \/ (Len(c) > 3 /\ ~Uniform(c)) THEN [o EXCEPT !.st = "free"]
     ELSE put
ReadLine(o, ln, tri, max) ==
  CASE o.st # "run" -> o
    [] ln.k = "v" -> [o EXCEPT !.vs = Append(@, ln.val)]
    [] ln.k = "u" -> [o EXCEPT !.us = Append(@, ln.val)]
    [] ln.k = "n" -> [o EXCEPT !.ns = Append(@, ln.val)]
    [] ln.k = "f" -> ReadFace(o, ln.c, tri, max)
    [] ln.k = "o" -> [o EXCEPT !.out = IF o.faces = <<>> THEN @ ELSE Append(@, [name |-> o.name, faces |-> o.faces]),
                               !.faces = <<>>, !.name = ln.name]
    [] ln.k = "bad" -> [o EXCEPT !.st = "err"]
    [] ln.k = "free" -> [o EXCEPT !.st = "free"]
    [] OTHER -> o
\* At the end of the text the last object is there even without faces
ReadEnd(o) == IF o.st = "run" THEN [o EXCEPT !.out = Append(@, [name |-> o.name, faces |-> o.faces]), !.st = "ok"] ELSE o

------------------------------------------------------------------------------
(* Writing. A mesh to write: [name, v, n, u (presence p and tokens a),         *)
(* vt, nt, ut (presence p and 0-based indices a)].                             *)
El(k, val) == [k |-> k, val |-> val, c |-> <<>>, name |-> ""]
Part(k, d) == IF d.p THEN [i \in 1..Len(d.a) |-> El(k, d.a[i])] ELSE <<>>
Ix(d, i, off) == IF d.p THEN d.a[i] + off + 1 ELSE 0
Count(d) == IF d.p THEN Len(d.a) ELSE 0
WriteMesh(m, vo, uo, no) ==
  <<[k |-> "o", val |-> 0, c |-> <<>>, name |-> m.name]>> \o Part("v", m.v) \o Part("n", m.n) \o Part("u", m.u)
  \o [i \in 1..(Count(m.vt) \div 3) |->
        [k |-> "f", val |-> 0, name |-> "",
         c |-> [j \in 1..3 |-> LET x == 3 * (i - 1) + j IN <<Ix(m.vt, x, vo), Ix(m.ut, x, uo), Ix(m.nt, x, no)>>]]]
RECURSIVE WriteFrom(_, _, _, _, _)
WriteFrom(ms, i, vo, uo, no) ==
  IF i > Len(ms) THEN <<>>
  ELSE WriteMesh(ms[i], vo, uo, no)
       \o WriteFrom(ms, i + 1, vo + Count(ms[i].v), uo + Count(ms[i].u), no + Count(ms[i].n))
WriteLines(ms) == WriteFrom(ms, 1, 0, 0, 0)
\* Is an index written for the list larger than max?
RECURSIVE LargerFrom(_, _, _, _, _, _)
LargerFrom(ms, i, vo, uo, no, max) ==
  i <= Len(ms) /\ LET over(x, off) == x.p /\ \E k \in 1..Len(x.a) : x.a[k] + off + 1 > max
                 IN \/ over(ms[i].vt, vo) \/ over(ms[i].ut, uo) \/ over(ms[i].nt, no)
                    \/ LargerFrom(ms, i + 1, vo + Count(ms[i].v), uo + Count(ms[i].u), no + Count(ms[i].n), max)
Larger(ms, max) == LargerFrom(ms, 1, 0, 0, 0, max)
\* What a list of meshes is read back as: meshes without triangles are lost, but for the last one
Get(d, x, i) == IF d.p /\ x.p THEN d.a[x.a[i] + 1] ELSE 0
FacesOf(m) == [i \in 1..(Count(m.vt) \div 3) |->
                 [j \in 1..3 |-> LET x == 3 * (i - 1) + j IN <<Get(m.v, m.vt, x), Get(m.u, m.ut, x), Get(m.n, m.nt, x)>>]]
RECURSIVE BackFrom(_, _)
BackFrom(ms, i) ==
  IF i > Len(ms) THEN <<>>
  ELSE (IF Count(ms[i].vt) > 0 \/ i = Len(ms) THEN <<[name |-> ms[i].name, faces |-> FacesOf(ms[i])]>> ELSE <<>>)
       \o BackFrom(ms, i + 1)
ReadBack(ms) == IF ms = <<>> THEN <<[name |-> "", faces |-> <<>>]>> ELSE BackFrom(ms, 1)

\* What .obj can represent: triangles, the same for every attribute that has them
Alike(d, vt) == d.p => vt.p /\ Len(d.a) = Len(vt.a)
Triangles(m) == Count(m.vt) % 3 = 0 /\ Alike(m.nt, m.vt) /\ Alike(m.ut, m.vt)
AllTriangles(ms) == \A i \in 1..Len(ms) : Triangles(ms[i])

------------------------------------------------------------------------------
(* Triangulation of a face with corners p: triangles tr, sequences of three    *)
Edges(q) == [i \in 1..Len(q) |-> <<q[i], q[(i % Len(q)) + 1]>>]
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
CountIn(q, e) == Cardinality({i \in 1..Len(q) : q[i] = e})
Flip(e) == <<e[2], e[1]>>
Covers(p, tr) ==
  LET border == Edges(p)
      all == Flat([i \in 1..Len(tr) |-> Edges(tr[i])])
      simple == Cardinality(RangeOf(p)) = Len(p)
  IN /\ Len(tr) = Len(p) - 2
     /\ \A i \in 1..Len(tr) : RangeOf(tr[i]) \subseteq RangeOf(p)
     /\ \A e \in RangeOf(all) \union RangeOf(border) :
          IF simple
          THEN IF e \in RangeOf(border) THEN CountIn(all, e) = 1 /\ CountIn(all, Flip(e)) = 0
               ELSE IF Flip(e) \in RangeOf(border) THEN CountIn(all, e) = 0
               ELSE CountIn(all, e) = CountIn(all, Flip(e)) /\ CountIn(all, e) = 1
          \* A corner that occurs twice: the edges add up to the border
          ELSE CountIn(all, e) - CountIn(all, Flip(e)) = CountIn(border, e) - CountIn(border, Flip(e))

\* Where a corner has no uv or normal nothing is demanded of it
Mask(got, want) == [i \in 1..3 |-> IF want[i] = 0 THEN 0 ELSE got[i]]
\* The corners read for a mesh are those of its faces, triangulated where needed
RECURSIVE FitsFrom(_, _, _, _)
FitsFrom(faces, i, cs, at) ==
  IF i > Len(faces) THEN at = Len(cs)
  ELSE LET f == faces[i]
           k == Len(f) - 2
       IN /\ at + 3 * k <= Len(cs)
          /\ LET tr == [j \in 1..k |-> [x \in 1..3 |-> Mask(cs[at + 3 * (j - 1) + x], f[1])]]
             IN IF k = 1 THEN \A x \in 1..3 : Mask(cs[at + x], f[x]) = f[x] ELSE Covers(f, tr)
          /\ FitsFrom(faces, i + 1, cs, at + 3 * k)
HasAny(faces, k) == \E i \in 1..Len(faces) : \E j \in 1..Len(faces[i]) : faces[i][j][k] # 0
\* A mesh that was read: [name, cs (corners), v, u, n (has it such corners)]
FitsMesh(want, got) ==
  /\ got.name = want.name
  /\ IF want.faces = <<>> THEN got.cs = <<>>
     ELSE /\ got.v
          /\ got.u = HasAny(want.faces, 2)
          /\ got.n = HasAny(want.faces, 3)
          /\ IF \A i \in 1..Len(want.faces) : Len(want.faces[i]) = 3
             THEN \* nothing to triangulate
                  /\ Len(got.cs) = 3 * Len(want.faces)
                  /\ \A i \in 1..Len(want.faces) : \A x \in 1..3 :
                       Mask(got.cs[3 * (i - 1) + x], want.faces[i][x]) = want.faces[i][x]
             ELSE FitsFrom(want.faces, 1, got.cs, 0)
FitsAll(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : FitsMesh(want[i], got[i])
==============================================================================
