------------------------------- MODULE TmfWrite ------------------------------
(* Files as the layout allows them: an index array may be split into any       *)
(* number of segments, each with any sufficient width and any base up to its   *)
(* smallest value, equal arrays may share a segment, unknown segments may      *)
(* stand anywhere.                                                             *)
EXTENDS Bits

\* The values as bits of width w each
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* vals: 32 bit patterns (I32), base: limbs. The difference must fit into w bits.
Diff(v, base) ==    \* v - base, for base <= v < 2^32
  LET a == L32(v)
      d4 == a[4] - base[4]
      d3 == a[3] - base[3] - (IF d4 < 0 THEN 1 ELSE 0)
  IN <<0, 0, (d3 + 65536) % 65536, (d4 + 65536) % 65536>>
EncIdx(vals, w, base, old) ==
  <<w>> \o Bytes64(L64(Len(vals))) \o (IF old THEN <<>> ELSE Bytes64(base))
  \o BytesOfBits(Cat([i \in 1..Len(vals) |-> BitsOfLimbs(Diff(vals[i], base), w)]))
EncSeg(ty, comp, payload, old) ==
  (IF old THEN Bytes16(ty) \o Bytes64(L64(Len(payload))) ELSE <<ty>> \o Bytes32(L64(Len(payload))))
  \o <<comp>> \o payload
EncMesh(name, segs) == Bytes16(Len(name)) \o name \o Bytes16(Len(segs)) \o Cat(segs)
EncFile(ver, meshes) ==
  <<84, 77, 70>> \o Bytes16(ver[1]) \o Bytes16(ver[2]) \o Bytes16(ver[3]) \o Bytes16(ver[4])
  \o Bytes32(L64(Len(meshes))) \o Cat(meshes)
==============================================================================
