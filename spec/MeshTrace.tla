------------------------------ MODULE MeshTrace ------------------------------
(* Validates recorded operations of the real library on meshes.                *)
(* An episode has tables nn and uu: normals and uvs by token. A normal is      *)
(* three numbers in units of 2^-24 (clipped at +-2, NaN being 2), an uv the    *)
(* bits of its two floats.                                                     *)
EXTENDS MeshOps, Json, IOUtils, TLC
CONSTANT Prop
VARIABLES reg,    \* meshes by name
          okd,    \* files saved, and meshes loaded, from a mesh that verified
          s, l, verdict
vars == <<reg, okd, s, l, verdict>>
T == ndJsonDeserialize(IOEnv.TRACE)
Ev == T[s].ev[l]

\* Square of x (units 2^-24, |x| <= 2) in units of 2^-24, rounded down
Sq(x) == LET a == IF x < 0 THEN -x ELSE x
             h == a \div 4096
             k == a % 4096
             mid == 2 * h * k
         IN h * h + mid \div 4096 + ((mid % 4096) * 4096 + k * k) \div 16777216
Unit(t) ==
  LET v == T[s].nn[t]
      q == Sq(v[1]) + Sq(v[2]) + Sq(v[3])
      lo == 16743678     \* 0.999^2 and 1.001^2 in units of 2^-24
      hi == 16810787
      near == 340        \* 0.00001 of the length
  IN IF q < lo - near \/ q > hi + near THEN "no" ELSE IF q >= lo + near /\ q <= hi - near THEN "yes" ELSE "close"
\* Bits of a float in [0,1], or -0
In01(b) == b \in 0..1065353216 \/ b = -2147483647 - 1
UvIn(t) == In01(T[s].uu[t][1]) /\ In01(T[s].uu[t][2])

------------------------------------------------------------------------------
M == reg[Ev.m]
\* What a snapshot shows of custom data: one lookup per name
Shows(m, snap) == /\ \A k \in Attrs : m[k] = snap[k]
                  /\ \A i \in 1..Len(snap.q) : LookupOf(m, snap.q[i].name) = snap.q[i].val
\* The mesh a snapshot shows, with the custom data it had
Shown(m, snap) == [k \in Attrs |-> snap[k]] @@ [c |-> m.c]
CustomKept(m, snap) == \A i \in 1..Len(snap.q) : LookupOf(m, snap.q[i].name) = snap.q[i].val

TraceInit == /\ s \in 1..Len(T) /\ l = 1 /\ verdict = "run"
             /\ reg = [x \in {""} |-> EmptyMesh] /\ okd = {}
Live == verdict = "run" /\ l <= Len(T[s].ev)
Reject(why) == /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why]))
               /\ verdict' = "rejected" /\ UNCHANGED <<reg, okd, s, l>>
Advance == l' = l + 1 /\ UNCHANGED <<s, verdict>>
Go(m) == Advance /\ reg' = (Ev.m :> m) @@ reg /\ okd' = okd \ {Ev.m}
Stay == Advance /\ UNCHANGED <<reg, okd>>
Judge(ok, why) == IF ok THEN Stay ELSE Reject(why)

TNew == Live /\ Ev.op = "mesh" /\ Go(Ev.mesh)
TSet == /\ Live /\ Ev.op = "set"
        /\ IF Ev.old # OldOf(M, Ev.k) THEN Reject("set returned another array than the one it replaced")
           ELSE Go(SetAttr(M, Ev.k, Ev.a))
TAppend == Live /\ Ev.op = "append" /\ Go(AppendAttr(M, Ev.k, Ev.a))
TGet == Live /\ Ev.op = "get" /\ Judge(Ev.val = M[Ev.k], "another array than the one set and appended to")
TBuffer == Live /\ Ev.op = "buffer" /\ Judge(Ev.val = BufferOf(M, Ev.k), "corner buffer differs")
TCustom == /\ Live /\ Ev.op = "custom"
           /\ IF Ev.res # AddResult(Ev.nlen) THEN Reject("adding custom data: " \o Ev.res)
              ELSE IF Ev.res = "ok" THEN Go(AddCustom(M, Ev.name, Ev.val)) ELSE Stay
\* Ev.views: what the accessors of each kind of custom data give, where they give something
TLookup == /\ Live /\ Ev.op = "lookup"
           /\ IF Ev.val # LookupOf(M, Ev.name) THEN Reject("lookup gave other custom data")
              ELSE Judge(Ev.views = ViewsOf(Ev.val), "custom data is seen as another kind")
TSnap == Live /\ Ev.op = "snap" /\ Judge(Shows(M, Ev.snap), "the mesh holds something else")
\* An operation and the mesh after it
TLayout ==
  /\ Live /\ Ev.op \in {"unify", "reorder", "normalize"}
  /\ LET w == Shown(M, Ev.snap)
         ok == CustomKept(M, Ev.snap) /\
               CASE Ev.op = "unify" -> Unified(M, w, T[s].top) /\ (Ev.again => w = M)
                 [] Ev.op = "reorder" -> Reordered(M, w) /\ (Ev.again => w = M)
                 [] Ev.op = "normalize" -> Normalized(M, w)
     IN IF ok THEN Go(w) ELSE Reject(Ev.op \o " changed the mesh in a way it must not")
\* Faults <<>>: accepted
TVerify ==
  /\ Live /\ Ev.op = "verify"
  /\ IF Prop = "C07"
     THEN IF Ev.m \in okd /\ Ev.faults # <<>> THEN Reject("a mesh that verified does not any more after saving and loading")
          ELSE Advance /\ UNCHANGED reg /\ okd' = IF Ev.faults = <<>> THEN okd \union {Ev.m} ELSE okd
     ELSE Judge(VerifyRight(M, Ev.faults, Unit, UvIn), "verification reports something else")
\* Saving a list of meshes, and loading what was written
TSave ==
  /\ Live /\ Ev.op = "save"
  /\ IF \A i \in 1..Len(Ev.ms) : Ev.ms[i] \in okd
     THEN IF Ev.res # "ok" THEN Reject("a mesh that verifies was not saved: " \o Ev.res)
          ELSE Advance /\ UNCHANGED reg /\ okd' = okd \union {Ev.file}
     ELSE Advance /\ UNCHANGED reg /\ okd' = okd \ {Ev.file}
TLoad ==
  /\ Live /\ Ev.op = "load"
  /\ IF Ev.file \in okd
     THEN IF Ev.res # "ok" THEN Reject("a saved mesh does not load: " \o Ev.res)
          ELSE Advance /\ UNCHANGED reg /\ okd' = okd \union {Ev.ms[i] : i \in 1..Len(Ev.ms)}
     ELSE Stay
\* A panic is no behaviour of any operation; saves and loads of what did not verify are judged elsewhere
TFault == /\ Live /\ Ev.op = "fault"
          /\ IF Ev.of \in {"save", "load"} /\ Prop = "C07" /\ ~(RangeOf(Ev.ms) \subseteq okd) THEN Stay
             ELSE Reject(Ev.of \o " ended with a " \o Ev.what)
TEnd == verdict = "run" /\ l > Len(T[s].ev) /\ verdict' = "accepted" /\ UNCHANGED <<reg, okd, s, l>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TNew \/ TSet \/ TAppend \/ TGet \/ TBuffer \/ TCustom \/ TLookup \/ TSnap \/ TLayout \/ TVerify
             \/ TSave \/ TLoad \/ TFault \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
