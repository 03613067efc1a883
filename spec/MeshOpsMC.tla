------------------------------ MODULE MeshOpsMC ------------------------------
(* Model of a user working on one mesh: all sequences of at most Depth         *)
(* operations over small alphabets. Checks that the library's way of unifying  *)
(* and reordering satisfies what is demanded of them, and writes the           *)
(* sequences out to be run on the real code.                                   *)
EXTENDS MeshOps, TLC, Json
CONSTANTS Depth,     \* operations in a sequence
          Keys,      \* attributes it works on
          Datas,     \* arrays it uses
          Names,     \* names of custom data: lengths
          Layouts,   \* layout operations it uses
          Emit
VARIABLES m, h
vars == <<m, h>>
Ops == [op : {"set", "append"}, k : Keys, a : Datas] \union [op : {"custom"}, n : Names] \union [op : Layouts]
\* Appending nothing to nothing says nothing about presence
Sensible(o) == ~(o.op = "append" /\ o.a = <<>> /\ ~m[o.k].p)
Do(o) == CASE o.op = "set" -> SetAttr(m, o.k, o.a)
           [] o.op = "append" -> AppendAttr(m, o.k, o.a)
           [] o.op = "custom" -> IF AddResult(o.n) = "ok" THEN AddCustom(m, o.n, Len(h) + 1) ELSE m
           [] o.op = "unify" -> DoUnify(m)
           [] o.op = "reorder" -> DoReorder(m)
           [] OTHER -> m
Init == m = EmptyMesh /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops : /\ Sensible(o)
                          /\ (o.op \in Layouts => WellIndexed(m))
                          /\ m' = Do(o) /\ h' = Append(h, o)
        /\ (Emit /\ Len(h') = Depth) => PrintT("SEQ " \o ToJson(h'))
Relations == WellIndexed(m) =>
  /\ Unified(m, DoUnify(m), 0) /\ Reordered(m, DoReorder(m))
  /\ DoUnify(DoUnify(m)) = DoUnify(m) /\ DoReorder(DoReorder(m)) = DoReorder(m)
  /\ WellIndexed(DoUnify(m)) /\ WellIndexed(DoReorder(m))
  \* Corners keep their values
  /\ \A k \in DataAttrs : BufferOf(m, k) = BufferOf(DoUnify(m), k) /\ BufferOf(m, k) = BufferOf(DoReorder(m), k)
  \* ... and a mesh that verifies still does
  /\ MustFail(m, LAMBDA t : "yes", LAMBDA t : TRUE) = {} =>
       /\ MustFail(DoUnify(m), LAMBDA t : "yes", LAMBDA t : TRUE) = {}
       /\ MustFail(DoReorder(m), LAMBDA t : "yes", LAMBDA t : TRUE) = {}
FirstFound == \A i \in 1..Len(m.c) : LookupOf(m, m.c[i].name) # NoVal /\ AddResult(m.c[i].name) = "ok"
==============================================================================
