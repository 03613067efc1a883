------------------------------- MODULE TmfFile -------------------------------
(* Reading a .tmf file, byte for byte.                                         *)
(*                                                                             *)
(* The reader is a state machine over the bytes B of a file; its state is the  *)
(* record `r`:                                                                 *)
(*   ph    "header" | "mesh" | "seg" | "ok" | "err"                            *)
(*   pos   bytes consumed                                                      *)
(*   old   pre-0.2 layout                                                      *)
(*   left  meshes not read yet          segs  segments of this mesh not read   *)
(*   cur   the mesh being read          out   meshes read                      *)
(*   may   errors which a reader may also report (the layout leaves it open)   *)
(*   errs  once ph = "err": the errors a reader may report                     *)
(*   dec   errors found decoding segments of the current mesh (reported after  *)
(*         all its segments have been read)                                    *)
(* A mesh is a record of attributes: float arrays as a count and the blocks    *)
(* they are stored in, index arrays exactly, custom arrays in order, and where *)
(* the segments are (raw: type, payload offset and length).                    *)
EXTENDS Bits
CONSTANT IdxBits   \* bits of the indices and integers of a build of the library: 16, 32 or 64

Eof == "IO:UnexpectedEof"
TooLong == "SegmentTooLong"
BadPrec == "InvalidPrecision"
BadComp == "CompressionTypeUnknown"
Unsup == "UnsuportedCompressionType"
BadData == "IO:InvalidData"
NotTmf == "NotTMFFile"
Newer == "NewerVersionRequired"

Major == 0
Minor == 2

NoArr == [p |-> FALSE, n |-> 0, bl |-> <<>>]
NoIdx == [p |-> FALSE, a |-> <<>>]
EmptyMesh == [name |-> <<>>, v |-> NoArr, n |-> NoArr, u |-> NoArr, t |-> NoArr,
              vt |-> NoIdx, nt |-> NoIdx, ut |-> NoIdx, tt |-> NoIdx, c |-> <<>>, raw |-> <<>>]

------------------------------------------------------------------------------
(* UTF-8, as names must be                                                     *)
Cont(b) == b >= 128 /\ b < 192
RECURSIVE Utf8From(_, _)
Utf8From(S, i) ==
  IF i > Len(S) THEN TRUE
  ELSE LET a == S[i]
           k == Len(S) - i
       IN IF a < 128 THEN Utf8From(S, i + 1)
          ELSE IF a >= 194 /\ a < 224 THEN k >= 1 /\ Cont(S[i + 1]) /\ Utf8From(S, i + 2)
          ELSE IF a >= 224 /\ a < 240
            THEN /\ k >= 2 /\ Cont(S[i + 1]) /\ Cont(S[i + 2])
                 /\ (a = 224 => S[i + 1] >= 160) /\ (a = 237 => S[i + 1] < 160)
                 /\ Utf8From(S, i + 3)
          ELSE IF a >= 240 /\ a < 245
            THEN /\ k >= 3 /\ Cont(S[i + 1]) /\ Cont(S[i + 2]) /\ Cont(S[i + 3])
                 /\ (a = 240 => S[i + 1] >= 144) /\ (a = 244 => S[i + 1] < 144)
                 /\ Utf8From(S, i + 4)
          ELSE FALSE
\* Long names are plain text; the test for it is not recursive
Utf8(S) == (\A i \in 1..Len(S) : S[i] < 128) \/ Utf8From(S, 1)

------------------------------------------------------------------------------
(* Decoding one payload: n bytes of B after the first o.                       *)
(* Result: `must` (no error possible iff empty), `may`, and the content `val`. *)
Good(v) == [must |-> {}, may |-> {}, val |-> v]
Bad(e) == [must |-> e, may |-> {}, val |-> <<>>]
Open(v, e) == [must |-> {}, may |-> e, val |-> v]
If(c, e) == IF c THEN {e} ELSE {}

\* count elements of `per` bits in n bytes
FitsBits(cnt, per, n) == per = 0 \/ cnt <= (8 * n) \div per

\* An index given as a sum of limbs with carry: whether a build has it, and how it is written here
HasIdx(v) == /\ v[1] = 0
             /\ IdxBits <= 32 => v[2] = 0 /\ v[3] = 0
             /\ IdxBits = 16 => v[4] = 0
MostIdx(l) == HasIdx(<<0>> \o l)
TheIdx(v) == IF IdxBits = 64 THEN <<I32(<<0, 0, v[2], v[3]>>), I32(<<0, 0, v[4], v[5]>>)>> ELSE I32(<<0, 0, v[4], v[5]>>)

IdxArr(B, o, n, old) ==
  LET hdr == IF old THEN 9 ELSE 17
  IN IF n < hdr
     THEN Bad({Eof} \cup If(n >= 1 /\ B[o + 1] >= 64, BadPrec)
                    \cup If(n >= 9 /\ Over31(U64L(B, o + 1)), TooLong))
     ELSE LET w == B[o + 1]
              cl == U64L(B, o + 1)
              cnt == Cnt(cl)
              base == IF old THEN Zero64 ELSE U64L(B, o + 9)
              wrong == If(Over31(cl), TooLong) \cup If(w >= 64, BadPrec)
          IN IF wrong # {} THEN Bad(wrong)
             ELSE IF ~FitsBits(cnt, w, n - hdr)
               THEN Bad({Eof} \cup If(w >= IdxBits \/ base # Zero64, BadData))
             ELSE IF cnt = 0 THEN Open(<<>>, If(~MostIdx(base), BadData))
             ELSE LET sum == [i \in 1..cnt |-> Add64(Wide(B, o + hdr, (i - 1) * w, w), base)]
                  IN IF \E i \in 1..cnt : ~HasIdx(sum[i])
                     THEN Bad({BadData})
                     ELSE Good([i \in 1..cnt |-> TheIdx(sum[i])])

\* Where a block of quantised values lies: payload offset o, length n, codes from `at`
Block(o, n, cnt, at, ws) == [o |-> o, n |-> n, cnt |-> cnt, at |-> at, ws |-> ws]

VertexArr(B, o, n) ==
  IF n < 59
  THEN Bad({Eof} \cup If(n >= 8 /\ Over31(U64L(B, o)), TooLong)
                 \cup If(\E k \in 57..n : B[o + k] >= 64 \/ B[o + k] = 0, BadPrec))
  ELSE LET cl == U64L(B, o)
           ws == <<B[o + 57], B[o + 58], B[o + 59]>>
           wrong == If(Over31(cl), TooLong) \cup If(\E i \in 1..3 : ws[i] >= 64, BadPrec)
           zero == \E i \in 1..3 : ws[i] = 0
       IN IF wrong # {} THEN Bad(wrong \cup If(zero, BadPrec))
          ELSE IF ~FitsBits(Cnt(cl), ws[1] + ws[2] + ws[3], n - 59) THEN Bad({Eof} \cup If(zero, BadPrec))
          ELSE Open(Block(o, n, Cnt(cl), o + 59, ws), If(zero, BadPrec))
\* Normals and tangents: `flags` bits in front of two codes
DirArr(B, o, n, flags) ==
  IF n < 9
  THEN Bad({Eof} \cup If(n >= 8 /\ Over31(U64L(B, o)), TooLong))
  ELSE LET cl == U64L(B, o)
           w == B[o + 9]
           wrong == If(Over31(cl), TooLong) \cup If(w >= 64, BadPrec)
       IN IF wrong # {} THEN Bad(wrong)
          ELSE IF ~FitsBits(Cnt(cl), flags + 2 * w, n - 9) THEN Bad({Eof})
          ELSE Good(Block(o, n, Cnt(cl), o + 9, <<flags, w, w>>))
UvArr(B, o, n) ==
  IF n < 9
  THEN Bad({Eof} \cup If(n >= 1 /\ B[o + 1] >= 64, BadPrec))
  ELSE LET cl == U64L(B, o + 1)
           w == B[o + 1]
           wrong == If(Over31(cl), TooLong) \cup If(w >= 64, BadPrec)
       IN IF wrong # {} THEN Bad(wrong)
          ELSE IF ~FitsBits(Cnt(cl), 2 * w, n - 9) THEN Bad({Eof})
          ELSE Good(Block(o, n, Cnt(cl), o + 9, <<w, w>>))
FloatArr(B, o, n) ==
  IF n < 25
  THEN Bad({Eof} \cup If(n >= 8 /\ Over31(U64L(B, o)), TooLong))
  ELSE LET cl == U64L(B, o)
           w == B[o + 25]
           wrong == If(Over31(cl), TooLong) \cup If(w >= 64, BadPrec)
       IN IF wrong # {} THEN Bad(wrong)
          ELSE IF ~FitsBits(Cnt(cl), w, n - 25) THEN Bad({Eof} \cup If(w = 0, BadPrec))
          ELSE Open(Block(o, n, Cnt(cl), o + 25, <<w>>), If(w = 0, BadPrec))
RgbaArr(B, o, n) ==
  IF n < 9
  THEN Bad({Eof} \cup If(n >= 8 /\ Over31(U64L(B, o)), TooLong))
  ELSE LET cl == U64L(B, o)
           w == B[o + 9]
           wrong == If(Over31(cl), TooLong) \cup If(w >= 64, BadPrec)
       IN IF wrong # {} THEN Bad(wrong)
          ELSE IF ~FitsBits(Cnt(cl), 4 * w, n - 9) THEN Bad({Eof} \cup If(w = 0, BadPrec))
          ELSE Open(Block(o, n, Cnt(cl), o + 9, <<w, w, w, w>>), If(w = 0, BadPrec))

------------------------------------------------------------------------------
(* What a segment does to the mesh                                             *)
AddArr(a, b) == [p |-> TRUE, n |-> a.n + b.cnt, bl |-> Append(a.bl, b)]
AddIdx(a, s) == [p |-> TRUE, a |-> a.a \o s]
Custom(name, kind, n, a, bl) == [name |-> name, kind |-> kind, n |-> n, a |-> a, bl |-> bl]

\* Decodes the payload [o, o+n) of a segment of type ty into mesh m: must, may, val = the mesh
Segment(B, m, ty, comp, o, n, old) ==
  LET Put(d, m2) == IF d.must # {} THEN [must |-> d.must, may |-> d.may, val |-> m]
                    ELSE [must |-> {}, may |-> d.may, val |-> m2]
      \* Compression other than none: only arrays of triangles must refuse it
      comped == IF comp = 0 THEN {} ELSE {Unsup}
      Soft(x) == [x EXCEPT !.may = @ \cup comped, !.must = IF @ = {} THEN {} ELSE @ \cup comped]
      Hard(x) == IF comp = 0 THEN x ELSE [must |-> {Unsup} \cup x.must, may |-> {}, val |-> m]
      arr == IdxArr(B, o, n, old)
  IN CASE ty = 1 -> Soft(LET d == VertexArr(B, o, n) IN Put(d, [m EXCEPT !.v = AddArr(@, d.val)]))
       [] ty = 3 -> Soft(LET d == DirArr(B, o, n, 3) IN Put(d, [m EXCEPT !.n = AddArr(@, d.val)]))
       [] ty = 5 -> Soft(LET d == UvArr(B, o, n) IN Put(d, [m EXCEPT !.u = AddArr(@, d.val)]))
       [] ty = 9 -> Soft(LET d == DirArr(B, o, n, 4) IN Put(d, [m EXCEPT !.t = AddArr(@, d.val)]))
       [] ty = 2 -> Hard(Put(arr, [m EXCEPT !.vt = AddIdx(@, arr.val)]))
       [] ty = 4 -> Hard(Put(arr, [m EXCEPT !.nt = AddIdx(@, arr.val)]))
       [] ty = 6 -> Hard(Put(arr, [m EXCEPT !.ut = AddIdx(@, arr.val)]))
       [] ty = 10 -> Hard(Put(arr, [m EXCEPT !.tt = AddIdx(@, arr.val)]))
       [] ty = 25 ->
            Hard(IF n < 1 THEN [must |-> {Eof}, may |-> {}, val |-> m]
                 ELSE LET k == B[o + 1]
                          d == IdxArr(B, o + 1, n - 1, old)
                          m1 == IF k % 2 = 1 THEN [m EXCEPT !.vt = AddIdx(@, d.val)] ELSE m
                          m2 == IF (k \div 2) % 2 = 1 THEN [m1 EXCEPT !.nt = AddIdx(@, d.val)] ELSE m1
                          m3 == IF (k \div 4) % 2 = 1 THEN [m2 EXCEPT !.ut = AddIdx(@, d.val)] ELSE m2
                      IN Put(d, m3))
       [] ty \in {15, 16, 23, 24} ->
            Soft(IF n < 1 \/ n < 1 + B[o + 1] THEN [must |-> {Eof}, may |-> {}, val |-> m]
                 ELSE LET k == B[o + 1]
                          name == SubSeq(B, o + 2, o + 1 + k)
                          o2 == o + 1 + k
                          n2 == n - 1 - k
                      IN CASE ty = 15 \/ ty = 24 ->
                                LET d == IdxArr(B, o2, n2, old)
                                IN Put(d, [m EXCEPT !.c = Append(@,
                                     Custom(name, IF ty = 15 THEN "index" ELSE "int", Len(d.val), d.val, <<>>))])
                           [] ty = 16 ->
                                LET d == FloatArr(B, o2, n2)
                                IN IF d.must # {} THEN Put(d, m)
                                   ELSE Put(d, [m EXCEPT !.c = Append(@,
                                          Custom(name, "float", d.val.cnt, <<>>, <<d.val>>))])
                           [] OTHER ->
                                LET d == RgbaArr(B, o2, n2)
                                IN IF d.must # {} THEN Put(d, m)
                                   ELSE Put(d, [m EXCEPT !.c = Append(@,
                                          Custom(name, "rgba", d.val.cnt, <<>>, <<d.val>>))]))
       [] OTHER -> [must |-> {}, may |-> {}, val |-> m]      \* unknown: skipped

------------------------------------------------------------------------------
(* The reader                                                                  *)
Start == [ph |-> "header", pos |-> 0, old |-> FALSE, left |-> 0, segs |-> 0, cur |-> EmptyMesh,
          out |-> <<>>, may |-> {}, errs |-> {}, dec |-> {}]
Fail(r, e) == [r EXCEPT !.ph = "err", !.errs = e \cup r.may]

\* After the meshes: the end
Turn(r) == IF r.left = 0 THEN [r EXCEPT !.ph = "ok"] ELSE [r EXCEPT !.ph = "mesh"]

AfterHeader(B, r) ==
  LET n == Len(B)
  IN IF n < 3 THEN Fail(r, {Eof} \cup If(B # SubSeq(<<84, 77, 70>>, 1, n), NotTmf))
     ELSE IF SubSeq(B, 1, 3) # <<84, 77, 70>> THEN Fail(r, {NotTmf})
     ELSE IF n < 11 THEN Fail(r, {Eof})
     ELSE LET minMajor == U16(B, 7)
              minMinor == U16(B, 9)
          IN IF minMajor > Major \/ (minMajor = Major /\ minMinor > Minor)
             THEN Fail(r, {Newer} \cup If(n < 15, Eof))
             ELSE IF n < 15 THEN Fail(r, {Eof})
             ELSE Turn([r EXCEPT !.pos = 15, !.old = (minMinor <= 1), !.left = Cnt(U32L(B, 11))])

EndMesh(r) ==
  IF r.dec # {} THEN Fail(r, r.dec)
  ELSE Turn([r EXCEPT !.out = Append(@, r.cur), !.cur = EmptyMesh, !.left = @ - 1])

AfterMeshHeader(B, r) ==
  LET p == r.pos
      n == Len(B) - p
  IN IF n < 2 THEN Fail(r, {Eof})
     ELSE LET k == U16(B, p)
          IN IF n < 2 + k THEN Fail(r, {Eof})
             ELSE LET name == SubSeq(B, p + 3, p + 2 + k)
                  IN IF ~Utf8(name) THEN Fail(r, {"IO"} \cup If(n < 4 + k, Eof))
                     ELSE IF n < 4 + k THEN Fail(r, {Eof})
                     ELSE LET segs == U16(B, p + 2 + k)
                              r2 == [r EXCEPT !.pos = p + 4 + k, !.segs = segs, !.ph = "seg", !.dec = {},
                                              !.cur = [EmptyMesh EXCEPT !.name = name]]
                          IN IF segs = 0 THEN EndMesh(r2) ELSE r2

AfterSegment(B, r) ==
  LET p == r.pos
      n == Len(B) - p
      tb == IF r.old THEN 2 ELSE 1
      lb == IF r.old THEN 8 ELSE 4
      hdr == tb + lb + 1
      FailRead(e) == Fail(r, e \cup r.dec)
  IN IF n < tb + lb THEN FailRead({Eof})
     ELSE LET ty == IF r.old THEN U16(B, p) ELSE B[p + 1]
              len == IF r.old THEN U64L(B, p + 2) ELSE U32L(B, p + 1)
          IN IF n < hdr THEN FailRead({Eof} \cup If(Over31(len), TooLong))
             ELSE LET comp == B[p + hdr]
                      wrong == If(Over31(len), TooLong) \cup If(comp \notin {0, 1, 2, 255}, BadComp)
                      k == Cnt(len)
                  IN IF wrong # {} THEN FailRead(wrong \cup If(k > n - hdr, Eof))
                     ELSE IF k > n - hdr THEN FailRead({Eof})
                     ELSE LET d == Segment(B, r.cur, ty, comp, p + hdr, k, r.old)
                              r2 == [r EXCEPT !.pos = p + hdr + k, !.segs = @ - 1,
                                       \* only the first segment that must fail decides, later ones are not reported
                                       !.may = IF r.dec = {} THEN @ \cup d.may ELSE @,
                                       !.dec = IF r.dec = {} THEN d.must ELSE @,
                                       !.cur = [d.val EXCEPT !.raw = Append(@, [ty |-> ty, o |-> p + hdr, n |-> k])]]
                          IN IF r2.segs = 0 THEN EndMesh(r2) ELSE r2

\* One step of the reader
StepOf(B, r) ==
  CASE r.ph = "header" -> AfterHeader(B, r)
    [] r.ph = "mesh" -> AfterMeshHeader(B, r)
    [] r.ph = "seg" -> AfterSegment(B, r)
    [] OTHER -> r
Over(r) == r.ph \in {"ok", "err"}

==============================================================================
