------------------------------- MODULE MeshOps -------------------------------
(* A mesh as its users see it, what each operation on it does, what            *)
(* verification reports and what unifying and reordering may do.               *)
(* Data elements are tokens (equal tokens: equal bits); indices are u32 given  *)
(* as integers of 32 bits, so negative ones are >= 2^31.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DataAttrs == {"v", "n", "u", "t"}
IdxAttrs == {"vt", "nt", "ut", "tt"}
IdxOf == [v |-> "vt", n |-> "nt", u |-> "ut", t |-> "tt"]
Attrs == DataAttrs \union IdxAttrs
None == [p |-> FALSE, a |-> <<>>]
Some(a) == [p |-> TRUE, a |-> a]
EmptyMesh == [k \in Attrs |-> None] @@ [c |-> <<>>]
NoVal == 0     \* what a lookup that finds nothing gives; tokens are positive

RangeOf(q) == {q[i] : i \in 1..Len(q)}
\* Indices start from 0
InRange(i, a) == i >= 0 /\ i < Len(a)
At(a, i) == a[i + 1]

------------------------------------------------------------------------------
(* Plain operations *)
SetAttr(m, k, a) == [m EXCEPT ![k] = Some(a)]
OldOf(m, k) == m[k]
AppendAttr(m, k, a) == [m EXCEPT ![k] = Some(@.a \o a)]
AddCustom(m, name, val) == [m EXCEPT !.c = Append(@, [name |-> name, val |-> val])]
AddResult(nlen) == IF nlen = 0 THEN "NoName" ELSE IF nlen > 255 THEN "NameTooLong" ELSE "ok"
LookupOf(m, name) ==
  LET hit == {i \in 1..Len(m.c) : m.c[i].name = name}
  IN IF hit = {} THEN NoVal ELSE m.c[CHOOSE i \in hit : \A j \in hit : i <= j].val
\* The accessor of the kind it has gives all of it, those of other kinds nothing
ViewsOf(val) == IF val = NoVal THEN <<>> ELSE <<val>>
BufferOf(m, k) ==
  LET d == m[k]
      x == m[IdxOf[k]]
  IN IF ~d.p \/ ~x.p \/ (\E i \in 1..Len(x.a) : ~InRange(x.a[i], d.a)) THEN None
     ELSE Some([i \in 1..Len(x.a) |-> At(d.a, x.a[i])])

------------------------------------------------------------------------------
(* Verification. Unit(tok) is "yes", "no" or "close" (at the bound, either way *)
(* is right); UvIn(tok) tells whether an uv lies in [0,1].                     *)
Faulty(m, k) ==
  LET d == m[k]
      x == m[IdxOf[k]]
  IN [missing |-> x.p /\ ~d.p,
      outside |-> IF d.p /\ x.p THEN {x.a[i] : i \in {j \in 1..Len(x.a) : ~InRange(x.a[j], d.a)}} ELSE {}]
MustFail(m, Unit(_), UvIn(_)) ==
  {k \in {"v", "n", "u"} :
     LET f == Faulty(m, k)
     IN \/ f.missing \/ f.outside # {}
        \/ k = "n" /\ \E i \in 1..Len(m.n.a) : Unit(m.n.a[i]) = "no"
        \/ k = "u" /\ \E i \in 1..Len(m.u.a) : ~UvIn(m.u.a[i])}
MayFail(m, Unit(_), UvIn(_)) ==
  MustFail(m, Unit, UvIn) \union (IF \E i \in 1..Len(m.n.a) : Unit(m.n.a[i]) = "close" THEN {"n"} ELSE {})
\* A reported fault [k, kind, x, y] is one the mesh has. For an uv x is its token, for an index the index and the length
RightFault(m, f, Unit(_), UvIn(_)) ==
  CASE f.kind = "missing" -> Faulty(m, f.k).missing
    [] f.kind = "outside" -> f.x \in Faulty(m, f.k).outside /\ f.y = Len(m[f.k].a)
    [] f.kind = "unit" -> f.k = "n" /\ \E i \in 1..Len(m.n.a) : Unit(m.n.a[i]) # "yes"
    [] f.kind = "range" -> f.k = "u" /\ f.x \in RangeOf(m.u.a) /\ ~UvIn(f.x)
    [] OTHER -> FALSE
\* faults = <<>>: the mesh was accepted
VerifyRight(m, faults, Unit(_), UvIn(_)) ==
  /\ \A f \in RangeOf(faults) : RightFault(m, f, Unit, UvIn)
  /\ MustFail(m, Unit, UvIn) \subseteq {f.k : f \in RangeOf(faults)}

------------------------------------------------------------------------------
(* Layout changes, as relations between the mesh before and after *)
Same(m, w, ks) == \A k \in ks : m[k] = w[k]
\* Attributes which take part in unifying
Parts(m) == {k \in DataAttrs : m[k].p /\ Len(m[k].a) > 0 /\ m[IdxOf[k]].p}
WellIndexed(m) == \A k \in DataAttrs : (m[k].p /\ m[IdxOf[k]].p) =>
                     \A i \in 1..Len(m[IdxOf[k]].a) : InRange(m[IdxOf[k]].a[i], m[k].a)
\* Equal indices after mean equal ones before and the other way round; all of 0..n-1 are used
Bijective(old, new, n) ==
  /\ RangeOf(new) = 0..(n - 1)
  /\ Len(old) = Len(new)
  /\ Cardinality({<<old[i], new[i]>> : i \in 1..Len(old)}) = n
  /\ Cardinality(RangeOf(old)) = n
\* top: how many different indices the build's type of indices can express (0: as many as it takes)
Unified(m, w, top) ==
  LET P == Parts(m)
      X == {m[IdxOf[k]].a : k \in P}
      one == IF P = {} THEN <<>> ELSE m[IdxOf[CHOOSE k \in P : TRUE]].a
  IN /\ m.c = w.c
     /\ IF Cardinality(X) <= 1 \/ (\E a, b \in X : Len(a) # Len(b)) THEN Same(m, w, Attrs)
        ELSE LET first == CHOOSE k \in P : TRUE
                 I == w[IdxOf[first]].a
                 combos == [i \in 1..Len(one) |-> [k \in P |-> m[IdxOf[k]].a[i]]]
                 n == Len(w[first].a)
             IN IF top > 0 /\ Len(one) > top /\ Cardinality(RangeOf(combos)) > top THEN Same(m, w, Attrs)
                ELSE
                /\ Same(m, w, Attrs \ (P \union {IdxOf[k] : k \in P}))
                /\ Bijective(combos, I, n)
                /\ \A k \in P : /\ w[IdxOf[k]] = Some(I)
                                /\ w[k].p /\ Len(w[k].a) = n
                                /\ \A i \in 1..Len(I) : At(w[k].a, I[i]) = At(m[k].a, m[IdxOf[k]].a[i])
Reorders(m) == {k \in {"v", "n", "u"} : m[k].p /\ m[IdxOf[k]].p /\ Len(m[IdxOf[k]].a) > 0}
Reordered(m, w) ==
  LET R == Reorders(m)
  IN /\ m.c = w.c
     /\ Same(m, w, Attrs \ (R \union {IdxOf[k] : k \in R}))
     /\ \A k \in R : LET x == m[IdxOf[k]].a
                         y == w[IdxOf[k]].a
                     IN /\ w[k].p /\ w[IdxOf[k]].p
                        /\ Bijective(x, y, Len(w[k].a))
                        /\ \A i \in 1..Len(x) : At(w[k].a, y[i]) = At(m[k].a, x[i])
\* Normals change, in place
Normalized(m, w) == /\ m.c = w.c /\ Same(m, w, Attrs \ {"n"})
                    /\ m.n.p = w.n.p /\ Len(m.n.a) = Len(w.n.a)

------------------------------------------------------------------------------
(* The way the library does it: numbers in order of first use *)
RECURSIVE FirstUse(_, _)
FirstUse(q, seen) == IF q = <<>> THEN seen
                     ELSE FirstUse(Tail(q), IF Head(q) \in RangeOf(seen) THEN seen ELSE Append(seen, Head(q)))
PosIn(q, x) == (CHOOSE i \in 1..Len(q) : q[i] = x) - 1
Renumber(x) == LET o == FirstUse(x, <<>>) IN [order |-> o, idx |-> [i \in 1..Len(x) |-> PosIn(o, x[i])]]
DoReorder(m) ==
  [k \in Attrs \union {"c"} |->
     IF k \in Reorders(m) THEN LET r == Renumber(m[IdxOf[k]].a) IN Some([i \in 1..Len(r.order) |-> At(m[k].a, r.order[i])])
     ELSE IF \E d \in Reorders(m) : IdxOf[d] = k THEN Some(Renumber(m[k].a).idx)
     ELSE m[k]]
DoUnify(m) ==
  LET P == Parts(m)
      X == {m[IdxOf[k]].a : k \in P}
  IN IF Cardinality(X) <= 1 \/ (\E a, b \in X : Len(a) # Len(b)) THEN m
     ELSE LET one == m[IdxOf[CHOOSE k \in P : TRUE]].a
              r == Renumber([i \in 1..Len(one) |-> [k \in P |-> m[IdxOf[k]].a[i]]])
          IN [k \in Attrs \union {"c"} |->
                IF k \in P THEN Some([i \in 1..Len(r.order) |-> At(m[k].a, r.order[i][k])])
                ELSE IF \E d \in P : IdxOf[d] = k THEN Some(r.idx)
                ELSE m[k]]
==============================================================================
