-------------------------------- MODULE FileMC --------------------------------
(* All small files over a menu of segments, in both layouts and several        *)
(* versions, read whole and cut at every byte. The reader of TmfFile must give *)
(* exactly the meaning of the segments (defined here on values, not on bytes), *)
(* refuse every strict prefix as truncated, and gate by version.               *)
(* Complete files are printed for replay into the real reader.                 *)
EXTENDS TmfWrite, TmfFile, Json, TLC
CONSTANTS MaxSegs, MaxMeshes, Emit
VARIABLES ver, meshes, cut, r, ph
vars == <<ver, meshes, cut, r, ph>>

\* k: what the segment means
Menu == <<
  [k |-> "vt", a |-> <<0, 1, 2>>, w |-> 2, base |-> 0],
  [k |-> "vt", a |-> <<>>, w |-> 0, base |-> 0],
  [k |-> "nt", a |-> <<9, 9>>, w |-> 0, base |-> 9],
  [k |-> "ut", a |-> <<300, 301>>, w |-> 9, base |-> 0],
  [k |-> "tt", a |-> <<65535>>, w |-> 33, base |-> 1],
  [k |-> "sh", a |-> <<4, 7>>, w |-> 3, base |-> 4, mask |-> 7],
  [k |-> "sh", a |-> <<2>>, w |-> 5, base |-> 1, mask |-> 2],
  [k |-> "sh", a |-> <<8>>, w |-> 4, base |-> 0, mask |-> 0],
  [k |-> "ci", a |-> <<5, 6>>, w |-> 3, base |-> 5, name |-> <<113>>],
  [k |-> "cn", a |-> <<255>>, w |-> 8, base |-> 0, name |-> <<113>>],
  [k |-> "xx", a |-> <<>>, ty |-> 77, pay |-> <<1, 2, 3>>],
  [k |-> "xx", a |-> <<>>, ty |-> 0, pay |-> <<>>],
  \* From here on: for builds with other indices. hi: what the base adds above 32 bits
  [k |-> "vt", a |-> <<65536, 1>>, w |-> 17, base |-> 0],
  [k |-> "nt", a |-> <<65535, 3>>, w |-> 17, base |-> 0],
  [k |-> "ci", a |-> <<70000>>, w |-> 1, base |-> 69999, name |-> <<113>>],
  [k |-> "sh", a |-> <<7, 0>>, w |-> 3, base |-> 0, mask |-> 5, hi |-> 3],
  [k |-> "cn", a |-> <<65537>>, w |-> 62, base |-> 1, name |-> <<113>>, hi |-> 40000] >>
Menus == 1..(IF IdxBits = 32 THEN 12 ELSE Len(Menu))
Versions == { <<0, 2, 0, 2>>, <<0, 1, 0, 1>>, <<9, 9, 0, 2>>, <<0, 3, 0, 3>>, <<1, 0, 1, 0>>, <<0, 2, 0, 0>> }
Old(v) == v[4] < 2
\* The old layout has no base
Width(e, old) == IF old /\ e.base > 0 THEN 17 ELSE e.w
Hi(e, old) == IF old \/ "hi" \notin DOMAIN e THEN 0 ELSE e.hi
Based(e, old) == IF old THEN 0 ELSE e.base
Arr(e, old) ==
  LET b == EncIdx(e.a, Width(e, old), L64(Based(e, old)), old)
      hi == Hi(e, old)
  IN IF hi = 0 THEN b ELSE [b EXCEPT ![14] = hi % 256, ![15] = hi \div 256]
Payload(e, old) ==
  CASE e.k \in {"vt", "nt", "ut", "tt"} -> Arr(e, old)
    [] e.k = "sh" -> <<e.mask>> \o Arr(e, old)
    [] e.k \in {"ci", "cn"} -> <<Len(e.name)>> \o e.name \o Arr(e, old)
    [] OTHER -> e.pay
Type(e, old) == CASE e.k = "vt" -> 2 [] e.k = "nt" -> 4 [] e.k = "ut" -> 6 [] e.k = "tt" -> 10 [] e.k = "sh" -> 25
             [] e.k = "ci" -> 15 [] e.k = "cn" -> 24
             [] OTHER -> IF old /\ e.ty > 0 THEN 512 + 2 ELSE e.ty     \* 16 bit type which ends in a known byte
File == EncFile(ver, [i \in 1..Len(meshes) |->
          EncMesh(<<96 + i>>, [j \in 1..Len(meshes[i]) |->
            EncSeg(Type(Menu[meshes[i][j]], Old(ver)), 0, Payload(Menu[meshes[i][j]], Old(ver)), Old(ver))])])

\* Meaning
Values(e) == IF IdxBits = 64 THEN [i \in 1..Len(e.a) |-> <<Hi(e, Old(ver)), e.a[i]>>] ELSE e.a
\* Segments a build has no indices for
TooBig(e) == Hi(e, Old(ver)) > (IF IdxBits = 64 THEN 65535 ELSE 0) \/ (IdxBits = 16 /\ \E i \in 1..Len(e.a) : e.a[i] > 65535)
NoneTooBig == \A i \in 1..Len(meshes) : \A j \in 1..Len(meshes[i]) : ~TooBig(Menu[meshes[i][j]])
Concerns(e, key) == \/ e.k = key
                    \/ e.k = "sh" /\ ((key = "vt" /\ e.mask % 2 = 1) \/ (key = "nt" /\ (e.mask \div 2) % 2 = 1)
                                      \/ (key = "ut" /\ (e.mask \div 4) % 2 = 1))
Array(seg, key) == LET own == SelectSeq(seg, LAMBDA j : Concerns(Menu[j], key))
                   IN [p |-> own # <<>>, a |-> Cat([i \in 1..Len(own) |-> Values(Menu[own[i]])])]
Customs(seg) == LET own == SelectSeq(seg, LAMBDA j : Menu[j].k \in {"ci", "cn"})
                IN [i \in 1..Len(own) |-> [name |-> Menu[own[i]].name, a |-> Values(Menu[own[i]]),
                                           kind |-> IF Menu[own[i]].k = "ci" THEN "index" ELSE "int"]]

Init == /\ ver \in Versions
        /\ \E n \in 0..MaxMeshes : meshes \in [1..n -> UNION {[1..k -> Menus] : k \in 0..MaxSegs}]
        /\ cut \in (IF Emit THEN {Len(File)} ELSE 0..Len(File))
        /\ r = Start /\ ph = "read"
        /\ (ver \in {<<0, 2, 0, 2>>, <<0, 1, 0, 1>>}) \/ Len(meshes) <= 1
Shown == IF cut = Len(File) THEN File ELSE SubSeq(File, 1, cut)
Read == /\ ph = "read"
        /\ IF Over(r) THEN ph' = "done" /\ UNCHANGED r ELSE r' = StepOf(Shown, r) /\ UNCHANGED ph
        /\ UNCHANGED <<ver, meshes, cut>>
        /\ IF Emit /\ Over(r) /\ cut = Len(File) THEN PrintT("FILE " \o ToJson(File)) ELSE TRUE
Next == Read
TooNew(v) == v[3] > 0 \/ (v[3] = 0 /\ v[4] > 2)
Meant(m, seg, i) ==
  /\ m.name = <<96 + i>>
  /\ \A key \in {"vt", "nt", "ut", "tt"} : m[key] = Array(seg, key)
  /\ [j \in 1..Len(m.c) |-> [name |-> m.c[j].name, a |-> m.c[j].a, kind |-> m.c[j].kind]] = Customs(seg)
  /\ ~m.v.p /\ ~m.n.p /\ ~m.u.p /\ ~m.t.p
Whole == ph = "done" /\ cut = Len(File) =>
           IF TooNew(ver) THEN r.ph = "err" /\ r.errs = {"NewerVersionRequired"}
           ELSE IF ~NoneTooBig THEN r.ph = "err" /\ r.errs = {"IO:InvalidData"}
           ELSE /\ r.ph = "ok" /\ r.pos = Len(File) /\ Len(r.out) = Len(meshes)
                /\ \A i \in 1..Len(meshes) : Meant(r.out[i], meshes[i], i)
Truncated == ph = "done" /\ cut < Len(File) =>
           /\ r.ph = "err"
           /\ "IO:UnexpectedEof" \in r.errs \/ TooNew(ver) \/ (~NoneTooBig /\ r.errs = {"IO:InvalidData"})
           /\ ~TooNew(ver) /\ NoneTooBig => r.errs = {"IO:UnexpectedEof"}
\* The reader consumes, and ends
Progress == [][(ph = "read" /\ r.ph # r'.ph) \/ r'.pos > r.pos \/ ph' = "done"]_vars
==============================================================================
