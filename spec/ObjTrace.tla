------------------------------- MODULE ObjTrace ------------------------------
(* Validates recorded reads and writes of .obj text.                           *)
EXTENDS Obj, Json, IOUtils, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Prop,
          Tri,    \* built with triangulation
          Largest \* index of such a build
VARIABLES o,      \* the specified reader
          i,      \* lines of the text read so far
          want,   \* what was written last, and whether that is known
          s, l, verdict
vars == <<o, i, want, s, l, verdict>>
T == ndJsonDeserialize(IOEnv.TRACE)
Ev == T[s].ev[l]
TraceInit == s \in 1..Len(T) /\ l = 1 /\ verdict = "run" /\ o = StartObj /\ i = 0 /\ want = [p |-> FALSE, ms |-> <<>>]
Live == verdict = "run" /\ l <= Len(T[s].ev)
Reject(why) == /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why]))
               /\ verdict' = "rejected" /\ UNCHANGED <<o, i, want, s, l>>
Step == l' = l + 1 /\ UNCHANGED <<s, verdict>>
\* Ev.lines: the text
TText == /\ Live /\ Ev.op = "text"
         /\ IF i < Len(Ev.lines) /\ o.st = "run"
            THEN \* a few lines of a short text, many of a long one
                 LET k == Min({Len(Ev.lines) - i, 1 + Len(Ev.lines) \div 50})
                 IN /\ i' = i + k
                    /\ o' = FoldLeft(LAMBDA q, x : ReadLine(q, x, Tri, Largest), o, SubSeq(Ev.lines, i + 1, i + k))
                    /\ UNCHANGED <<want, s, l, verdict>>
            ELSE LET e == ReadEnd(o)
                 IN IF want.p /\ ~(e.st = "ok" /\ e.out = ReadBack(want.ms)) /\ Prop \in {"C18", "C26", "C27"}
                    THEN Reject("the text written does not denote the meshes")
                    ELSE o' = e /\ Step /\ UNCHANGED <<i, want>>
\* Ev.meshes was written; Ev.judged: they have indices in range, finite numbers and names of one line
TWrite == /\ Live /\ Ev.op = "write"
          /\ LET tri == AllTriangles(Ev.meshes)
             IN IF Ev.judged /\ tri /\ Ev.res # "ok" THEN Reject("writing failed: " \o Ev.res)
                ELSE IF Prop = "C26" /\ Ev.judged /\ ~tri /\ Ev.res = "ok" THEN Reject("what is no triangle mesh was written")
                ELSE /\ want' = [p |-> Ev.judged /\ tri, ms |-> Ev.meshes] /\ o' = StartObj /\ i' = 0 /\ Step
TRead == /\ Live /\ Ev.op = "read"
         /\ IF CASE o.big /\ o.st = "ok" -> Ev.res # "ok" \/ FitsAll(o.out, Ev.meshes)
                 [] o.st = "ok" -> Ev.res = "ok" /\ FitsAll(o.out, Ev.meshes)
                 [] o.st = "err" -> Ev.res # "ok"
                 [] OTHER -> TRUE
            THEN IF want.p /\ ~(Larger(want.ms, Largest) /\ Ev.res # "ok") /\ ~(Ev.res = "ok" /\ FitsAll(ReadBack(want.ms), Ev.meshes))
                 THEN Reject("the meshes written are read back as others")
                 ELSE Step /\ UNCHANGED <<o, i, want>>
            ELSE Reject("the text is read as something else: " \o Ev.res \o " for " \o o.st)
TFault == Live /\ Ev.op = "fault" /\ Reject(Ev.of \o " ended with a " \o Ev.what)
TEnd == verdict = "run" /\ l > Len(T[s].ev) /\ verdict' = "accepted" /\ UNCHANGED <<o, i, want, s, l>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TText \/ TWrite \/ TRead \/ TFault \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
