------------------------------- MODULE LayoutMC ------------------------------
(* Every mesh over small arrays, unified and reordered in any order: the       *)
(* library's way of doing it satisfies what is demanded, always.               *)
EXTENDS MeshOps, Json
CONSTANTS Used,     \* data attributes a mesh may have
          Emit
VARIABLES m, was, did
vars == <<m, was, did>>
DataArrays == {None, Some(<<>>), Some(<<7, 8>>)}
IdxArrays == {None, Some(<<>>), Some(<<0, 1>>), Some(<<1, 0>>), Some(<<1, 1>>), Some(<<0, 1, 1>>)}
Meshes == {x \in [Attrs -> DataArrays \union IdxArrays] :
             \A k \in DataAttrs : IF k \in Used THEN x[k] \in DataArrays /\ x[IdxOf[k]] \in IdxArrays
                                  ELSE x[k] = None /\ x[IdxOf[k]] = None}
\* One attribute at a time: TLC cannot enumerate the set above
Pick[U \in SUBSET DataAttrs] ==
  IF U = {} THEN {[k \in Attrs |-> None]}
  ELSE LET a == CHOOSE a \in U : TRUE
       IN {[x EXCEPT ![a] = d, ![IdxOf[a]] = i] : x \in Pick[U \ {a}], d \in DataArrays, i \in IdxArrays}
Init == /\ m \in {x @@ [c |-> <<>>] : x \in {y \in Pick[Used] : WellIndexed(y)}}
        /\ was = m /\ did = "none"
        /\ Emit => PrintT("MESH " \o ToJson(m))
Next == /\ did' \in {"unify", "reorder"} /\ was' = m
        /\ m' = IF did' = "unify" THEN DoUnify(m) ELSE DoReorder(m)
Demanded == /\ did = "unify" => Unified(was, m, 0)
            /\ did = "reorder" => Reordered(was, m)
Idempotent == DoUnify(DoUnify(m)) = DoUnify(m) /\ DoReorder(DoReorder(m)) = DoReorder(m)
Corners == WellIndexed(m) /\ \A k \in DataAttrs : BufferOf(m, k) = BufferOf(was, k)
Verifies(x) == MustFail(x, LAMBDA t : "yes", LAMBDA t : TRUE) = {}
StillVerifies == Verifies(was) => Verifies(m)
==============================================================================
