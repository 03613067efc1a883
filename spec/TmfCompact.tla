------------------------------ MODULE TmfCompact -----------------------------
(* How many bits a saved file spends (C28). Everything is computed from the    *)
(* bytes alone, by the layout of TmfFile, and compared with the saved mesh `m` *)
(* and with the precision asked for. Lengths are in units of 2^-m.k.           *)
EXTENDS TmfValues, FiniteSets

Most(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Bits of a number of at most 16 bits, of four limbs
RECURSIVE Len16(_)
Len16(x) == IF x = 0 THEN 0 ELSE 1 + Len16(x \div 2)
LenL(v) == CASE v[1] > 0 -> 48 + Len16(v[1]) [] v[2] > 0 -> 32 + Len16(v[2])
             [] v[3] > 0 -> 16 + Len16(v[3]) [] OTHER -> Len16(v[4])

\* A block of cnt elements of `per` bits after a header of `hdr` bytes has no bytes to spare
Exact(n, hdr, cnt, per) == n = hdr + (cnt * per + 7) \div 8

\* Indices or integers in n bytes after the first o: counted from the least, as wide as the largest
\* (`asked`: width of the maximum given with custom data)
IdxCompact(B, o, n, asked) ==
  LET w == B[o + 1]
      cnt == Cnt(U64L(B, o + 1))
      base == U64L(B, o + 9)
      code == [i \in 1..cnt |-> Wide(B, o + 17, (i - 1) * w, w)]
  IN /\ Exact(n, 17, cnt, w)
     /\ w <= Most({Min2(63, asked)} \cup {LenL(Tail(Add64(code[i], base))) : i \in 1..cnt})
     /\ cnt > 0 => \E i \in 1..cnt : code[i] = Zero64

\* size as <<mantissa in 2048..4095, exponent>>, rounded up
RECURSIVE Up(_, _)
Up(m, e) == IF m >= 4096 THEN Up((m + 1) \div 2, e + 1) ELSE IF m < 2048 THEN Up(2 * m, e - 1) ELSE <<m, e>>
\* No fewer bits would give steps of at most `inc` (in the same form); one bit is the least
WidthFor(w, size, inc) ==
  w <= 1 \/ LET s == IF size = 0 THEN <<2148, -21>> ELSE Up(size, 0)     \* a flat axis counts as 10^-6, k = 10
                e == inc[2] + w - 1
            IN e < s[2] \/ (e = s[2] /\ inc[1] <= s[1] + 1)

\* The box of every part is the box of its points (the layout's minimal and maximal positions)
Tight(B, d, m) ==
  \A q \in 1..Len(d.v.bl) :
    LET b == d.v.bl[q]
        first == Before([j \in 1..Len(d.v.bl) |-> d.v.bl[j].cnt], q - 1)
    IN b.cnt > 0 => \A c \in 1..3 :
         LET X == {m.v.x[first + i][c] : i \in 1..b.cnt}
         IN /\ F64Units(B, b.o + 8 + 16 * (c - 1), m.k) = Least(X)
            /\ F64Units(B, b.o + 16 + 16 * (c - 1), m.k) = Most(X)
VerticesCompact(B, d, m) ==
  \A q \in 1..Len(d.v.bl) :
    LET b == d.v.bl[q]
    IN /\ Exact(b.n, 59, b.cnt, b.ws[1] + b.ws[2] + b.ws[3])
       /\ b.cnt > 0 \/ Len(d.v.bl) = 1
       /\ \A c \in 1..3 : WidthFor(b.ws[c], F64Units(B, b.o + 16 * c, m.k) - F64Units(B, b.o + 16 * c - 8, m.k), m.vinc)
\* One block of codes of at most `most` bits
CodesCompact(arr, flags, most) ==
  Len(arr.bl) <= 1 /\ \A q \in 1..Len(arr.bl) :
    LET b == arr.bl[q] IN Exact(b.n, 9, b.cnt, flags + 2 * b.ws[Len(b.ws)]) /\ b.ws[Len(b.ws)] <= most

\* Segment g of a mesh: type, payload offset and length
Indexed(ty) == ty \in {2, 4, 6, 10, 25}
SegCompact(B, d, m, g) ==
  CASE g.ty \in {2, 4, 6, 10} -> IdxCompact(B, g.o, g.n, 0)
    [] g.ty = 25 -> B[g.o + 1] \in {3, 5, 6, 7} /\ IdxCompact(B, g.o + 1, g.n - 1, 0)
    [] OTHER -> TRUE
\* Nothing but what the mesh has, in no more parts than have content
Customs(d) == {i \in 1..Len(d.raw) : d.raw[i].ty \in {15, 16, 23, 24}}
CustomCompact(B, g, c) ==
  LET h == 1 + B[g.o + 1]
  IN IF c.kind \in {"index", "int"} THEN IdxCompact(B, g.o + h, g.n - h, c.asked)
     ELSE IF c.kind = "rgba" THEN LET w == B[g.o + h + 9] IN Exact(g.n - h, 9, c.n, 4 * w) /\ w <= c.most
     ELSE LET w == B[g.o + h + 25]
              lo == F64Units(B, g.o + h + 8, c.k)
              hi == F64Units(B, g.o + h + 16, c.k)
          IN /\ Exact(g.n - h, 25, c.n, w)
             /\ c.n > 0 => lo = Least({c.x[i] : i \in 1..c.n}) /\ hi = Most({c.x[i] : i \in 1..c.n})
             /\ c.n > 0 => w <= 1 \/ (hi > lo /\ WidthFor(w, hi - lo, c.inc))
Parts(B, d, key, bit) == {i \in 1..Len(d.raw) : d.raw[i].ty = key \/ (d.raw[i].ty = 25 /\ (B[d.raw[i].o + 1] \div bit) % 2 = 1)}
IdxCount(B, g) == Cnt(U64L(B, g.o + (IF g.ty = 25 THEN 2 ELSE 1)))
Once(a, b, P, Q) == (a.p /\ b.p /\ a.a = b.a) => P = Q
Segments(B, d, m) ==
  LET V == Parts(B, d, 2, 1)
      N == Parts(B, d, 4, 2)
      U == Parts(B, d, 6, 4)
      C == SelectSeq(d.raw, LAMBDA g : g.ty \in {15, 16, 23, 24})
  IN /\ \A i \in 1..Len(d.raw) : d.raw[i].ty \in {1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25} /\ SegCompact(B, d, m, d.raw[i])
     \* equal index arrays of vertices, normals and uvs are stored once
     /\ Once(m.vt, m.nt, V, N) /\ Once(m.vt, m.ut, V, U) /\ Once(m.nt, m.ut, N, U)
     /\ \A P \in {V, N, U, Parts(B, d, 10, 8)} : Cardinality(P) > 1 => \A i \in P : IdxCount(B, d.raw[i]) > 0
     /\ Len(C) = Len(m.c) /\ \A k \in 1..Len(C) : CustomCompact(B, C[k], m.c[k])

\* What the mesh has, and nothing else
Has(d, m) == /\ \A k \in {"v", "n", "u", "t"} : d[k].p = m[k].p /\ d[k].n = m[k].n
             /\ \A k \in {"vt", "nt", "ut", "tt"} : d[k].p = m[k].p
Compact(B, d, m) == /\ Has(d, m) /\ Tight(B, d, m) /\ VerticesCompact(B, d, m)
                    /\ CodesCompact(d.n, 3, m.nmost) /\ CodesCompact(d.t, 4, m.tmost) /\ CodesCompact(d.u, 0, m.umost)
                    /\ Segments(B, d, m)
==============================================================================
