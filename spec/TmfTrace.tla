------------------------------- MODULE TmfTrace ------------------------------
(* Validates recorded saves and loads of the real library against TmfFile.     *)
(* Prop selects the property whose clauses decide.                             *)
EXTENDS TmfCompact, Json, IOUtils, TLC
CONSTANT Prop
VARIABLES r,      \* the specified reader, on the bytes of the last save or read event
          sv,     \* the save event whose file is being looked at (0: none)
          ld,     \* the last load event that gave meshes or an error (0: none)
          s, l, verdict
vars == <<r, sv, ld, s, l, verdict>>
T == ndJsonDeserialize(IOEnv.TRACE)
E(k) == T[s].ev[k]
Ev == E(l)
Bytes == T[s].b[Ev.file]

------------------------------------------------------------------------------
SameIdx(a, b) == a.p = b.p /\ (a.p => a.a = b.a)
SameIndices(a, b) == SameIdx(a.vt, b.vt) /\ SameIdx(a.nt, b.nt) /\ SameIdx(a.ut, b.ut) /\ SameIdx(a.tt, b.tt)
SameCount(a, b) == a.p = b.p /\ (a.p => a.n = b.n)
SameCounts(a, b) == SameCount(a.v, b.v) /\ SameCount(a.n, b.n) /\ SameCount(a.u, b.u) /\ SameCount(a.t, b.t)
SamePresence(a, b) ==
  /\ a.v.p = b.v.p /\ a.n.p = b.n.p /\ a.u.p = b.u.p /\ a.t.p = b.t.p
  /\ a.vt.p = b.vt.p /\ a.nt.p = b.nt.p /\ a.ut.p = b.ut.p /\ a.tt.p = b.tt.p
\* The custom array found under a name: the first
Found(c, name) == IF \E i \in 1..Len(c) : c[i].name = name
                  THEN c[CHOOSE i \in 1..Len(c) : c[i].name = name /\ \A j \in 1..(i - 1) : c[j].name # name]
                  ELSE [name |-> name, kind |-> "none", n |-> 0, a |-> <<>>]
\* q: what lookups gave, one record per name asked for
SameCustom(c, q) == LET f == Found(c, q.name) IN f.kind = q.kind /\ f.n = q.n /\ (f.kind \in {"index", "int"} => f.a = q.a)
SameCustoms(c, qs) == \A k \in 1..Len(qs) : SameCustom(c, qs[k])

Same(d, m) == d.name = m.name /\ SameIndices(d, m) /\ SameCounts(d, m) /\ SameCustoms(d.c, m.c)
All(P(_, _), ds, ms) == Len(ds) = Len(ms) /\ \A i \in 1..Len(ds) : P(ds[i], ms[i])

\* An error a reader may report here
Reported(res, io, errs) == res \in errs \/ (io /\ ({"IO", BadData} \cap errs) # {})

------------------------------------------------------------------------------
(* Value clauses of C23: what the file denotes is what was saved, within the   *)
(* tolerances, computed from the codes in the file alone.                      *)
(* Saved values come in integer units 2^-k, tolerances in the same units.      *)
Near(a, b, tol) == Abs(a - b) <= tol
VertexValues(B, d, m) ==
  m.v.p => \A i \in 1..m.v.n :
    LET q == Locate(d.v.bl, 1, i)
        b == d.v.bl[q[1]]
    IN \A c \in 1..3 :
         LET lo == F64Units(B, b.o + 8 + 16 * (c - 1), m.k)
             hi == F64Units(B, b.o + 16 + 16 * (c - 1), m.k)
         IN Near(Between(Code(B, b, q[2], c), b.ws[c], lo, hi), m.v.x[i][c], m.vtol + Rest(b.ws[c], lo, hi))
\* Directions: x is <<sign x, sign y, sign z, azimuth, z, free, hand>>, angles and z as fractions of 2^18
\* of a quarter turn and of 1; sign 2 means either
DirValues(B, arr, src, hand, atol, ztol) ==
  src.p => \A i \in 1..src.n :
    LET q == Locate(arr.bl, 1, i)
        b == arr.bl[q[1]]
        w == b.ws[2]
        x == src.x[i]
    IN w > 0 =>
       /\ \A f \in 1..3 : x[f] = 2 \/ Flag(B, b, q[2], f + hand) = x[f]
       /\ hand = 1 => Flag(B, b, q[2], 1) = x[7]
       /\ x[6] = 1 \/ Near(Between(Code(B, b, q[2], 2), w, 0, 262144), x[4], atol + Rest(w, 0, 262144))
       /\ Near(Between(Code(B, b, q[2], 3), w, 0, 262144), x[5], ztol + Rest(w, 0, 262144))
UvValues(B, d, m) ==
  m.u.p => \A i \in 1..m.u.n :
    LET q == Locate(d.u.bl, 1, i)
        b == d.u.bl[q[1]]
    IN \A c \in 1..2 : Near(Between(Code(B, b, q[2], c), b.ws[c], 0, 262144), m.u.x[i][c], m.utol + Rest(b.ws[c], 0, 262144))
CustomValue(B, c, q) ==
  /\ (c.kind = "float" /\ q.x # <<>>) =>
       LET b == c.bl[1]
           lo == F64Units(B, b.o + 8, q.k)
           hi == F64Units(B, b.o + 16, q.k)
       IN \A i \in 1..c.n : Near(Between(Code(B, b, i, 1), b.ws[1], lo, hi), q.x[i], q.tol + Rest(b.ws[1], lo, hi))
  /\ (c.kind = "rgba" /\ q.x # <<>>) =>
       LET b == c.bl[1]
       IN \A i \in 1..c.n : \A k \in 1..4 :
            Near(Between(Code(B, b, i, k), b.ws[k], 0, 262144), q.x[i][k], q.tol + Rest(b.ws[k], 0, 262144))
CustomValues(B, dc, mc) ==
  Len(dc) = Len(mc) /\ \A k \in 1..Len(dc) :
    /\ dc[k].name = mc[k].name /\ dc[k].kind = mc[k].kind /\ dc[k].n = mc[k].n
    /\ dc[k].kind \in {"index", "int"} => dc[k].a = mc[k].a
    /\ CustomValue(B, dc[k], mc[k])
\* Of a loaded mesh: what lookups gave
FoundValues(B, dc, qs) == \A k \in 1..Len(qs) : CustomValue(B, Found(dc, qs[k].name), qs[k])

\* The values of a loaded mesh
ValuesOf(B, d, m) == /\ VertexValues(B, d, m)
                     /\ DirValues(B, d.n, m.n, 0, m.natol, m.nztol)
                     /\ DirValues(B, d.t, m.t, 1, m.tatol, m.tztol)
                     /\ UvValues(B, d, m)
                     /\ FoundValues(B, d.c, m.c)
\* The file says what was saved
Layout(d, m) == d.name = m.name /\ SameIndices(d, m) /\ SameCounts(d, m)
Values(B, d, m) == /\ VertexValues(B, d, m)
                   /\ DirValues(B, d.n, m.n, 0, m.natol, m.nztol)
                   /\ DirValues(B, d.t, m.t, 1, m.tatol, m.tztol)
                   /\ UvValues(B, d, m)
                   /\ CustomValues(B, d.c, m.c)
                   /\ Tight(B, d, m)

------------------------------------------------------------------------------
TraceInit == /\ s \in 1..Len(T) /\ l = 1 /\ verdict = "run"
             /\ r = Start /\ sv = 0 /\ ld = 0
Live == verdict = "run" /\ l <= Len(T[s].ev)
Step == l' = l + 1 /\ UNCHANGED <<s, verdict>>
Reject(why) == /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why]))
               /\ verdict' = "rejected" /\ UNCHANGED <<r, sv, ld, s, l>>
Judge(ok, why) == IF ok THEN Step ELSE Reject(why)

\* Saving. Ev.keep: one mesh of the file alone, in another file. Ev.fits: the format can represent the input (and the sink accepts everything)
TSave ==
  /\ Live /\ Ev.op = "save"
  /\ IF Ev.res = "panic" THEN Reject("saving panicked")
     ELSE IF Prop \in {"C25", "C27"} /\ ~Ev.fits /\ Ev.res = "ok" THEN Reject("input which does not fit the format was saved")
     ELSE IF Ev.fits /\ Ev.res # "ok" THEN Reject("saving failed: " \o Ev.res)
     ELSE IF Ev.keep /\ Ev.res = "ok" THEN Step /\ UNCHANGED <<r, sv, ld>>
     ELSE Step /\ r' = Start /\ sv' = (IF Ev.res = "ok" THEN l ELSE 0) /\ ld' = 0
\* Another file
TOpen == Live /\ Ev.op = "open" /\ r' = Start /\ sv' = 0 /\ ld' = 0 /\ Step
\* The specified reader reads the file
TRead ==
  /\ Live /\ Ev.op = "read"
  /\ IF ~Over(r) THEN r' = StepOf(Bytes, r) /\ UNCHANGED <<sv, ld, s, l, verdict>>
     ELSE IF Prop = "C28" /\ sv > 0
       THEN IF r.ph # "ok" \/ Len(r.out) # Len(E(sv).meshes) THEN Reject("the written file does not follow the layout")
            ELSE Judge(\A i \in 1..Len(r.out) : Compact(Bytes, r.out[i], E(sv).meshes[i]), "the file spends more than it needs")
                 /\ UNCHANGED <<r, sv, ld>>
     ELSE IF Prop \in {"C23", "C27"} /\ sv > 0
       THEN /\ IF r.ph # "ok" THEN Reject("the written file does not follow the layout")
               ELSE IF r.pos # Len(Bytes) THEN Reject("the written file does not end where the layout says")
               ELSE IF ~All(Layout, r.out, E(sv).meshes) THEN Reject("the written file denotes another mesh")
               ELSE IF ~(\A i \in 1..Len(r.out) : Values(Bytes, r.out[i], E(sv).meshes[i]))
                 THEN Reject("the written file denotes other values")
               ELSE Step /\ UNCHANGED <<r, sv, ld>>
       ELSE Step /\ UNCHANGED <<r, sv, ld>>
\* The real reader's result for the bytes `r` has read (if it has), or for the file saved last
AsSaved ==   \* clauses about a save and a load
  LET M == E(sv).meshes
      N == Ev.meshes
  IN CASE Prop = "C01" -> All(SameIndices, M, N)
       [] Prop = "C06" -> /\ All(SamePresence, M, N)
                          /\ \A i \in 1..Len(M) : M[i].name = N[i].name
                          /\ \A i \in 1..Len(M) : \A k \in 1..Len(N[i].c) : Found(M[i].c, N[i].c[k].name).kind = N[i].c[k].kind
       [] Prop = "C25" -> /\ Len(M) = Len(N)
                          /\ \A i \in 1..Len(M) : Same(M[i], N[i])
       [] OTHER -> TRUE
TLoad ==
  /\ Live /\ Ev.op = "load"
  /\ UNCHANGED <<r, sv>>
  /\ ld' = IF Ev.mode = "sync" THEN l ELSE ld
  /\ IF Ev.res \in {"panic", "crash", "hang"} /\ Prop \in {"C09", "C12", "C13", "C23", "C24", "C01", "C06", "C25", "C10", "C27"}
       THEN /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> "loading ended with a " \o Ev.res]))
            /\ verdict' = "rejected" /\ UNCHANGED <<s, l>>
     ELSE LET must == IF r.ph = "err" THEN r.errs \ r.may ELSE {}
              ok == CASE Prop = "C09" ->
                           /\ Ev.peak <= 65536 + Ev.len \div 4
                           /\ (Over(r) /\ must # {} /\ must \subseteq {TooLong, BadPrec, BadComp})
                                => Ev.res \in r.errs
                      [] Prop \in {"C13", "C23", "C27"} /\ Over(r) ->
                           IF r.ph = "err" THEN Reported(Ev.res, Ev.io, r.errs)
                           ELSE (/\ Ev.res = "ok" /\ All(Same, r.out, Ev.meshes)
                                 /\ (Prop \in {"C23", "C27"} /\ Ev.vals) =>
                                      \A i \in 1..Len(r.out) : ValuesOf(T[s].b[Ev.file], r.out[i], Ev.meshes[i]))
                                \/ Reported(Ev.res, Ev.io, r.may)
                      [] Prop = "C12" /\ Over(r) ->
                           /\ IF r.ph = "err" THEN Reported(Ev.res, Ev.io, r.errs)
                              ELSE (Ev.res = "ok" /\ All(Same, r.out, Ev.meshes)) \/ Reported(Ev.res, Ev.io, r.may)
                           /\ ld > 0 => Ev.res = E(ld).res /\ Ev.toks = E(ld).toks
                      [] Prop = "C10" /\ Over(r) -> r.ph = "err" => Ev.res # "ok"
                      [] Prop = "C24" /\ Ev.mode # "sync" /\ ld > 0 ->
                           LET L == E(ld)
                           IN IF Ev.mode = "async" THEN Ev.res = L.res /\ Ev.toks = L.toks
                              ELSE IF L.res # "ok" THEN Ev.res = L.res
                              ELSE IF Len(L.toks) = 1 THEN Ev.res = "ok" /\ Ev.toks = L.toks
                              ELSE IF Ev.mode = "obj_one" THEN Ev.res # "ok"
                              ELSE IF Len(L.toks) = 0 THEN Ev.res = "NoMeshes"
                              ELSE Ev.res = "TooManyMeshes"
                      [] sv > 0 -> Ev.res = "ok" /\ AsSaved
                      [] OTHER -> TRUE
          IN IF ok THEN l' = l + 1 /\ UNCHANGED <<s, verdict>>
             ELSE /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> "load: " \o Ev.res \o ", not as specified",
                                                 errs |-> r.errs, ph |-> r.ph]))
                  /\ verdict' = "rejected" /\ UNCHANGED <<s, l>>
\* Meshes loaded from files of their own are the ones loaded from the common file
TAlone ==
  /\ Live /\ Ev.op = "alone"
  /\ Judge(ld > 0 /\ (E(ld).res = "ok" /\ Ev.i <= Len(E(ld).toks) /\ Ev.tok = E(ld).toks[Ev.i]),
           "a mesh loads differently with other meshes in the file")
  /\ UNCHANGED <<r, sv, ld>>
\* Every strict prefix
TCuts ==
  /\ Live /\ Ev.op = "cuts"
  /\ LET bad == {i \in 1..Len(Ev.outs) : Ev.outs[i] # Eof}
     IN Judge(bad = {}, IF bad = {} THEN "" ELSE "a prefix was not reported as truncated: " \o ToJson(CHOOSE i \in bad : TRUE))
  /\ UNCHANGED <<r, sv, ld>>
\* Two things that must be the same, as tokens (C24: the files of the writers for one and for many meshes)
TEqual ==
  /\ Live /\ Ev.op = "equal"
  /\ Judge(Ev.a = Ev.b, Ev.what)
  /\ UNCHANGED <<r, sv, ld>>
TFault == Live /\ Ev.op \in {"panic", "crash", "hang"} /\ Reject("the operation ended with a " \o Ev.op)
TEnd == verdict = "run" /\ l > Len(T[s].ev) /\ verdict' = "accepted" /\ UNCHANGED <<r, sv, ld, s, l>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TOpen \/ TSave \/ TRead \/ TLoad \/ TAlone \/ TCuts \/ TEqual \/ TFault \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
