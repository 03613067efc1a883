------------------------------- MODULE SplitMC -------------------------------
(* The writer's freedom with index arrays, checked exhaustively for small     *)
(* arrays: arrays of the three shareable attributes are merged when equal,    *)
(* split anywhere, each part stored with any base up to its minimum in any    *)
(* sufficient width; the specified reader (TmfFile) rejoins them exactly.     *)
EXTENDS TmfWrite, TmfFile, TLC
CONSTANTS MaxLen, Values
VARIABLES slack, based, \* unneeded bits per value, and whether bases are used (one choice per file)
          arrs,     \* the arrays of the mesh: attribute -> sequence
          todo,     \* what is still to be written: sequence of [mask/type, rest]
          segs, r, ph
vars == <<slack, based, arrs, todo, segs, r, ph>>
Seqs == UNION {[1..n -> Values] : n \in 0..MaxLen}
Init ==
  /\ slack \in {0, 1} /\ based \in BOOLEAN
  /\ \E a \in Seqs : \E share \in SUBSET {"nt", "ut"} : \E b \in {<<>>, <<1>>, a} :
       /\ arrs = [vt |-> a, nt |-> IF "nt" \in share THEN a ELSE b, ut |-> IF "ut" \in share THEN a ELSE b]
       /\ \/ todo = <<[ty |-> 2, mask |-> 0, rest |-> arrs.vt], [ty |-> 4, mask |-> 0, rest |-> arrs.nt],
                      [ty |-> 6, mask |-> 0, rest |-> arrs.ut]>>
          \/ /\ arrs.vt = arrs.nt
             /\ todo = <<[ty |-> 25, mask |-> 3, rest |-> arrs.vt], [ty |-> 6, mask |-> 0, rest |-> arrs.ut]>>
          \/ /\ arrs.vt = arrs.nt /\ arrs.nt = arrs.ut
             /\ todo = <<[ty |-> 25, mask |-> 7, rest |-> arrs.vt]>>
          \/ /\ arrs.nt = arrs.ut
             /\ todo = <<[ty |-> 25, mask |-> 6, rest |-> arrs.nt], [ty |-> 2, mask |-> 0, rest |-> arrs.vt]>>
  /\ segs = <<>> /\ r = Start /\ ph = "write"
MinOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
MaxOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
Needed(k) == CHOOSE w \in 0..24 : k < Pow2(w) /\ (w = 0 \/ k >= Pow2(w - 1))
\* Writes a part of the array in front; the last part may be empty only if the array is
Put ==
  /\ ph = "write" /\ todo # <<>>
  /\ LET t == Head(todo)
     IN \E k \in (IF t.rest = <<>> THEN {0} ELSE 1..Len(t.rest)) :
          LET part == SubSeq(t.rest, 1, k)
              rest == SubSeq(t.rest, k + 1, Len(t.rest))
              base == IF k > 0 /\ based THEN MinOf(part) ELSE 0
              w == slack + IF k = 0 THEN 0 ELSE Needed(MaxOf(part) - base)
          IN        /\ segs' = Append(segs, EncSeg(t.ty, 0, (IF t.ty = 25 THEN <<t.mask>> ELSE <<>>)
                                                             \o EncIdx(part, w, L64(base), FALSE), FALSE))
                    /\ todo' = IF rest = <<>> THEN Tail(todo) ELSE <<[t EXCEPT !.rest = rest]>> \o Tail(todo)
  /\ UNCHANGED <<slack, based, arrs, r, ph>>
Done == ph = "write" /\ todo = <<>> /\ ph' = "read" /\ UNCHANGED <<slack, based, arrs, todo, segs, r>>
Bytes == EncFile(<<0, 2, 0, 2>>, <<EncMesh(<<109>>, segs)>>)
Read == ph = "read" /\ ~Over(r) /\ r' = StepOf(Bytes, r) /\ UNCHANGED <<slack, based, arrs, todo, segs, ph>>
Next == Put \/ Done \/ Read
Rejoined == (ph = "read" /\ Over(r)) =>
  /\ r.ph = "ok" /\ r.pos = Len(Bytes) /\ Len(r.out) = 1
  /\ \A k \in {"vt", "nt", "ut"} : r.out[1][k] = [p |-> TRUE, a |-> arrs[k]]
==============================================================================
