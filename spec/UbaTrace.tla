------------------------------- MODULE UbaTrace ------------------------------
(* Validates recorded uses of the real UnalignedWriter/UnalignedReader (C14).  *)
EXTENDS Bits, Json, IOUtils, TLC
CONSTANT Prop
VARIABLES bits, pos, s, l, verdict
U == INSTANCE Uba WITH ByteBits <- 8
T == ndJsonDeserialize(IOEnv.TRACE)
vars == <<bits, pos, s, l, verdict>>
Ev == T[s].ev[l]

TraceInit == U!UInit /\ s \in 1..Len(T) /\ l = 1 /\ verdict = "run"
Live == verdict = "run" /\ l <= Len(T[s].ev)
Step == l' = l + 1 /\ UNCHANGED <<s, verdict>>
Reject(why) == /\ PrintT("REJECT " \o ToJson([s |-> s, l |-> l, why |-> why, ev |-> Ev]))
               /\ verdict' = "rejected" /\ UNCHANGED <<bits, pos, s, l>>

TWrite == /\ Live /\ Ev.op = "w"
          /\ U!Write(BitsOfLimbs(Ev.v, Ev.w)) /\ Step
\* All writes done: the bytes that came out of the writer, which flushed
TBytes == /\ Live /\ Ev.op = "bytes"
          /\ IF Ev.given THEN bits' = BitsOfBytes(Ev.b) /\ UNCHANGED pos /\ Step
             ELSE IF BytesOfBits(bits) = Ev.b THEN U!Flush /\ Step
             ELSE Reject("the bytes written are not the values, most significant bit first")
TRead == /\ Live /\ Ev.op = "r"
         /\ IF U!Has(Ev.ws)
            THEN IF Ev.res = "ok" /\ Len(Ev.vs) = Len(Ev.ws)
                    /\ LET V == U!Values(Ev.ws) IN \A i \in 1..Len(Ev.ws) : Ev.vs[i] = LimbsOfBits(V[i])
                 THEN U!Read(Ev.ws) /\ Step
                 ELSE Reject("a read returned other values than written")
            ELSE IF Ev.res = "IO:UnexpectedEof"
                 THEN UNCHANGED <<bits, pos>> /\ Step
                 ELSE Reject("a read past the end did not report the end of the file")
\* A long stream. Ev.written, Ev.read: the number and a digest of the values written and of those read with the same
\* widths; Ev.rest: bits that are not of values; Ev.res: of the read after the last value; Ev.left: reads not made
TWhole == /\ Live /\ Ev.op = "whole"
          /\ IF Ev.rest \notin 0..7 THEN Reject("the bytes written are not as many as the values need")
             ELSE IF Ev.read # Ev.written THEN Reject("reading a long stream returned other values than written")
             ELSE IF Ev.res # "IO:UnexpectedEof" \/ Ev.left # 0 THEN Reject("a read past the end did not report the end of the file")
             ELSE UNCHANGED <<bits, pos>> /\ Step
TOther == Live /\ Ev.op = "panic" /\ Reject("panic or abort")
TEnd == /\ verdict = "run" /\ l > Len(T[s].ev)
        /\ verdict' = "accepted" /\ UNCHANGED <<bits, pos, s, l>>
TStop == verdict # "run" /\ UNCHANGED vars
TraceNext == TWrite \/ TBytes \/ TRead \/ TWhole \/ TOther \/ TEnd \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
NotRejected == verdict # "rejected"
==============================================================================
