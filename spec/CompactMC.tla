------------------------------- MODULE CompactMC -------------------------------
(* Encodings of small index arrays: which ones IdxCompact of C28 accepts.        *)
(* Every array has one that is accepted, and no encoding that counts from the    *)
(* least value and is as wide as the largest takes fewer bytes than one that     *)
(* counts from zero.                                                             *)
EXTENDS TmfWrite, TmfCompact, TLC
CONSTANTS Top, MaxLen
VARIABLES a, w, base, extra
vars == <<a, w, base, extra>>
Widths == 0..(Len16(Top) + 1)
Init == /\ a \in UNION {[1..k -> 0..Top] : k \in 0..MaxLen}
        /\ w = -1 /\ base = 0 /\ extra = 0
Choose == /\ w = -1 /\ w' \in Widths /\ base' \in 0..Top /\ extra' \in {0, 1} /\ UNCHANGED a
Next == Choose
Codable(ww, bb) == \A i \in 1..Len(a) : a[i] >= bb /\ a[i] - bb < Pow2(ww)
Bytes(ww, bb) == EncIdx(a, ww, L64(bb), FALSE)
Accepted(ww, bb, x) == LET B == TLCEval(Bytes(ww, bb) \o SubSeq(<<0>>, 1, x)) IN IdxCompact(B, 0, Len(B), 0)
Means(ww, bb) == LET B == TLCEval(Bytes(ww, bb)) d == IdxArr(B, 0, Len(B), FALSE) IN d.must = {} /\ d.val = a
\* Bytes of an encoding of that width
Size(ww) == 17 + (ww * Len(a) + 7) \div 8
Max == Most({0} \cup {a[i] : i \in 1..Len(a)})
Min == IF a = <<>> THEN 0 ELSE Least({a[i] : i \in 1..Len(a)})
\* The writer's encoding is accepted and means the array
Enough == w = -1 => LET ww == Len16(Max) IN Len(Bytes(ww, Min)) = Size(ww) /\ Codable(ww, Min) /\ Accepted(ww, Min, 0) /\ Means(ww, Min)
\* What is accepted has no spare bytes, counts from the least value, and is not longer than any encoding from zero
NotLess == (w >= 0 /\ Codable(w, base) /\ Accepted(w, base, extra)) =>
             /\ extra = 0 /\ (a # <<>> => base = Min) /\ w <= Len16(Max)
             /\ \A v \in Widths : Codable(v, 0) => Size(w) <= Size(v)
================================================================================
