------------------------------ MODULE DecodePool -----------------------------
(* Decoding the segments of a file concurrently: while the reader reads the    *)
(* next segments (or afterwards, with one thread), pending decodes finish in   *)
(* any order; the results are joined in the order of the file. Whatever the    *)
(* order, the outcome is that of the sequential reader of TmfFile.             *)
(* Complete runs are written out with the order in which segments finished,    *)
(* to be imposed on the real decoder.                                          *)
EXTENDS TmfWrite, TmfFile, Json, TLC
CONSTANTS MaxSegs, Early,  \* Early: decodes may finish before all segments have been read
          Emit
VARIABLES segs,     \* the file: places in the menu
          read,     \* segments read
          done,     \* segments decoded, in the order in which they finished
          out       \* "run", or the outcome
vars == <<segs, read, done, out>>

Menu == <<
  [ty |-> 2, pay |-> EncIdx(<<0, 1>>, 1, Zero64, FALSE)],
  [ty |-> 2, pay |-> EncIdx(<<7>>, 0, L64(7), FALSE)],
  [ty |-> 25, pay |-> <<3>> \o EncIdx(<<4, 5, 6>>, 2, L64(4), FALSE)],
  [ty |-> 15, pay |-> <<1, 113>> \o EncIdx(<<3>>, 2, Zero64, FALSE)],
  [ty |-> 24, pay |-> <<1, 113>> \o EncIdx(<<9>>, 4, Zero64, FALSE)],
  [ty |-> 77, pay |-> <<1>>],
  [ty |-> 2, pay |-> EncIdx(<<1>>, 64, Zero64, FALSE)],               \* too wide
  [ty |-> 4, pay |-> SubSeq(EncIdx(<<1>>, 8, Zero64, FALSE), 1, 17)]  \* cut short
  >>
File == EncFile(<<0, 2, 0, 2>>, <<EncMesh(<<97>>, [i \in 1..Len(segs) |-> EncSeg(Menu[segs[i]].ty, 0, Menu[segs[i]].pay, FALSE)])>>)

\* Decoding one segment does not depend on the others: it gives a change of the mesh or an error
Decode(m, i) == LET B == Menu[segs[i]].pay IN Segment(B, m, Menu[segs[i]].ty, 0, 0, Len(B), FALSE)
Broken(i) == Decode(EmptyMesh, i).must
RECURSIVE Apply(_, _)
Apply(m, i) == IF i > Len(segs) THEN m ELSE Apply(Decode(m, i).val, i + 1)
Joined == LET bad == {i \in 1..Len(segs) : Broken(i) # {}}
          IN IF bad # {} THEN [ok |-> FALSE, errs |-> Broken(CHOOSE i \in bad : \A j \in bad : i <= j), mesh |-> EmptyMesh]
             ELSE [ok |-> TRUE, errs |-> {}, mesh |-> Apply([EmptyMesh EXCEPT !.name = <<97>>], 1)]

Init == /\ segs \in UNION {[1..k -> 1..Len(Menu)] : k \in 0..MaxSegs}
        /\ read = 0 /\ done = <<>> /\ out = [st |-> "run"]
Read == read < Len(segs) /\ read' = read + 1 /\ UNCHANGED <<segs, done, out>>
Finish == /\ Early \/ read = Len(segs)
          /\ \E i \in 1..read : /\ \A j \in 1..Len(done) : done[j] # i
                                /\ done' = Append(done, i)
          /\ UNCHANGED <<segs, read, out>>
Join == /\ out.st = "run" /\ read = Len(segs) /\ Len(done) = Len(segs)
        /\ out' = [st |-> "over", res |-> Joined]
        /\ UNCHANGED <<segs, read, done>>
        /\ Emit => PrintT("POOL " \o ToJson([file |-> File, order |-> done]))
Next == out.st = "run" /\ (Read \/ Finish \/ Join)

\* The sequential reader on the bytes
RECURSIVE Sequential(_)
Sequential(r) == IF Over(r) THEN r ELSE Sequential(StepOf(File, r))
Bare(m) == [m EXCEPT !.raw = <<>>, !.c = [i \in 1..Len(m.c) |-> [name |-> m.c[i].name, kind |-> m.c[i].kind, a |-> m.c[i].a]]]
SameAsSequential ==
  out.st = "over" =>
    LET r == Sequential(Start)
    IN IF r.ph = "ok" THEN out.res.ok /\ Bare(out.res.mesh) = Bare(r.out[1]) ELSE ~out.res.ok /\ out.res.errs = r.errs
==============================================================================
