------------------------------ MODULE StreamTrace ----------------------------
(* Validates saves and loads of the real library through streams which split,   *)
(* interrupt and fail.                                                          *)
(* An episode is about one file: b[1] is the .tmf file (if any), read by the    *)
(* specification; `plain` events give what a plain stream yields.               *)
EXTENDS TmfFile, Json, IOUtils, TLC
CONSTANT Prop
VARIABLES r, plain, s, l, verdict
vars == <<r, plain, s, l, verdict>>
T == ndJsonDeserialize(IOEnv.TRACE)
Ev == T[s].ev[l]
B == T[s].b[1]
TraceInit == s \in 1..Len(T) /\ l = 1 /\ verdict = "run" /\ r = Start /\ plain = 0
Live == verdict = "run" /\ l <= Len(T[s].ev)
Reject(why) == /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why]))
               /\ verdict' = "rejected" /\ UNCHANGED <<r, plain, s, l>>
Step == l' = l + 1 /\ UNCHANGED <<s, verdict>>
Judge(ok, why) == IF ok THEN Step /\ UNCHANGED <<r, plain>> ELSE Reject(why)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
P == T[s].ev[plain]

TRead == /\ Live /\ Ev.op = "read"
         /\ IF ~Over(r) THEN r' = StepOf(B, r) /\ UNCHANGED <<plain, s, l, verdict>>
            ELSE Step /\ UNCHANGED <<r, plain>>
\* The same through a plain stream
TPlain == /\ Live /\ Ev.op = "plain"
          /\ Step /\ plain' = l /\ UNCHANGED r
\* A load through another stream. Ev.failed: the stream failed. Ev.kind: the error it failed with
TLoad == /\ Live /\ Ev.op = "load"
         /\ LET same == Ev.res = P.res /\ Ev.tok = P.tok
            IN Judge(IF Ev.failed THEN IF P.res = "ok" THEN Ev.res = Ev.kind ELSE Ev.res = Ev.kind \/ same
                     ELSE /\ same
                          \* exactly the bytes of the file
                          /\ (Ev.tmf /\ Over(r) /\ r.ph = "ok" /\ Ev.res = "ok") => Ev.consumed = r.pos,
                     IF Ev.failed THEN "the stream failed but reading gave " \o Ev.res
                     ELSE "reading through another stream gave another result")
\* A save through another sink. The bytes written are in Ev.bytes, those of a plain save in b[2]
TSave == /\ Live /\ Ev.op = "save"
         /\ LET whole == T[s].b[2]
            IN Judge(/\ IsPrefix(Ev.bytes, whole)
                     /\ Ev.failed => \E i \in 1..Len(Ev.kinds) : Ev.kinds[i] = Ev.res
                     /\ ~Ev.failed => Ev.res = P.res
                     /\ Ev.res = "ok" => Ev.bytes = whole,
                     "saving through another sink gave " \o Ev.res \o " and another file")
TFault == Live /\ Ev.op = "fault" /\ Reject(Ev.of \o " ended with a " \o Ev.what)
TEnd == verdict = "run" /\ l > Len(T[s].ev) /\ verdict' = "accepted" /\ UNCHANGED <<r, plain, s, l>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TRead \/ TPlain \/ TLoad \/ TSave \/ TFault \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
