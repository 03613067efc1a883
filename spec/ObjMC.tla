-------------------------------- MODULE ObjMC --------------------------------
(* All short .obj texts over a menu of lines, which are written out and read    *)
(* by the real importer, and all short lists of small meshes: what is written   *)
(* for them reads back as them.                                                 *)
EXTENDS Obj, Json, TLC
CONSTANTS MaxLines, MaxMeshes, Emit
VARIABLES txt, o, ms
vars == <<txt, o, ms>>
F(c) == [k |-> "f", val |-> 0, c |-> c, name |-> ""]
N(s) == [k |-> "o", val |-> 0, c |-> <<>>, name |-> s]
P(a, u, n) == <<a, u, n>>
Menu == << El("v", 1), El("v", 2), El("u", 1), El("n", 1), N("a"), N("b c"),
           F(<<P(1, 0, 0), P(1, 0, 0), P(1, 0, 0)>>), F(<<P(1, 0, 0), P(2, 0, 0), P(1, 0, 0)>>), F(<<P(1, 1, 0), P(1, 1, 0), P(1, 1, 0)>>),
           F(<<P(1, 0, 1), P(1, 0, 1), P(1, 0, 1)>>), F(<<P(1, 1, 1), P(1, 1, 1), P(1, 1, 1)>>),
           F(<<P(1, 0, 0), P(1, 0, 0)>>), El("bad", 0), El("skip", 0) >>
D == {[p |-> FALSE, a |-> <<>>], [p |-> TRUE, a |-> <<1>>], [p |-> TRUE, a |-> <<1, 2>>]}
X == {[p |-> FALSE, a |-> <<>>], [p |-> TRUE, a |-> <<0, 0, 0>>], [p |-> TRUE, a |-> <<0, 1, 1>>]}
OkMesh(m) == /\ m.vt.p => m.v.p /\ \A i \in 1..3 : m.vt.a[i] < Len(m.v.a)
             /\ m.ut.p => m.vt.p /\ m.u.p /\ \A i \in 1..3 : m.ut.a[i] < Len(m.u.a)
             /\ ~m.n.p
             /\ m.nt = m.n
Mesh == {m \in [name : {"a", "b"}, v : D, u : D, n : {[p |-> FALSE, a |-> <<>>]}, vt : X, ut : X, nt : {[p |-> FALSE, a |-> <<>>]}] : OkMesh(m)}
Min2(a, b) == IF a < b THEN a ELSE b
Init == /\ txt = <<>> /\ o = StartObj
        /\ ms \in (IF MaxMeshes = 0 THEN {<<>>} ELSE UNION {[1..k -> Mesh] : k \in 0..MaxMeshes})
\* Reading a text, line by line
Next == /\ MaxLines > 0 /\ Len(txt) < MaxLines
        /\ \E i \in 1..Len(Menu) : txt' = Append(txt, i) /\ o' = ReadLine(o, Menu[i], FALSE, 1000)
        /\ UNCHANGED ms
        /\ (Emit /\ Len(txt') = MaxLines) => PrintT("OBJ " \o ToJson([lines |-> [i \in 1..Len(txt') |-> Menu[txt'[i]]]]))
RECURSIVE ReadAll(_, _, _)
ReadAll(p, lines, i) == IF i > Len(lines) THEN ReadEnd(p) ELSE ReadAll(ReadLine(p, lines[i], FALSE, 1000), lines, i + 1)
\* Elements are never lost or reordered, indices never dangle
Sound == o.st = "run" => \A i \in 1..Len(o.faces) : Len(o.faces[i]) = 3
WriteRead == MaxLines = 0 =>
  LET b == ReadAll(StartObj, WriteLines(ms), 1) IN b.st = "ok" /\ b.out = ReadBack(ms)
\* A mesh that is cut short of a triangle is none of triangles, and would lose corners if it was written
Refused == MaxLines = 0 /\ Len(ms) = 1 =>
  \A c \in 1..Min2(2, Count(ms[1].vt)) :
    LET m == [ms[1] EXCEPT !.vt = [@ EXCEPT !.a = SubSeq(@, 1, Len(@) - c)]]
        b == ReadAll(StartObj, WriteLines(<<m>>), 1)
    IN ~Triangles(m) /\ b.st = "ok" /\ 3 * Len(b.out[1].faces) < Count(m.vt)
Writable == MaxLines = 0 => AllTriangles(ms)
==============================================================================
