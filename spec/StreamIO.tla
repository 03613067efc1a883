------------------------------- MODULE StreamIO ------------------------------
(* A stream which moves bytes in pieces, is interrupted and fails, and a client *)
(* which reads (or writes) fixed amounts through it until all are moved,        *)
(* retrying interruptions. What the client sees depends on where the stream     *)
(* fails or ends only, not on the pieces.                                       *)
(* The scripts of the streams are written out and played to the real library.   *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Steps,     \* what one call moves at most; 0: an interruption
          MaxScript, \* length of a script, which is repeated
          Size,      \* bytes in the stream (or room in the sink)
          Demands,   \* the amounts the client asks for, one after the other
          Emit
VARIABLES script, fail, at, pos, k, got, res
vars == <<script, fail, at, pos, k, got, res>>
None == Size + 1
Scripts == {q \in UNION {[1..n -> Steps] : n \in 1..MaxScript} : \E i \in 1..Len(q) : q[i] > 0}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Init == /\ script \in Scripts /\ fail \in 0..None /\ at = 0 /\ pos = 0 /\ k = 1 /\ got = 0 /\ res = "run"
        /\ Emit => PrintT("STREAM " \o ToJson([chunks |-> script, fail |-> IF fail = None THEN -1 ELSE fail]))
Want == Demands[k] - got
\* A call of the stream
Call == /\ res = "run" /\ k <= Len(Demands) /\ Want > 0
        /\ IF pos >= fail THEN res' = "failed" /\ UNCHANGED <<at, pos, k, got>>
           ELSE IF pos = Size THEN res' = "eof" /\ UNCHANGED <<at, pos, k, got>>
           ELSE LET step == script[(at % Len(script)) + 1]
                    lim == IF fail < Size THEN fail ELSE Size
                    n == IF step = 0 THEN 0 ELSE LET a == IF step < Want THEN step ELSE Want
                                                 IN IF pos + a > lim THEN lim - pos ELSE a
                IN at' = (at + 1) % Len(script) /\ pos' = pos + n /\ got' = got + n /\ UNCHANGED <<k, res>>
        /\ UNCHANGED <<script, fail>>
\* The next demand
Turn == /\ res = "run" /\ k <= Len(Demands) /\ Want = 0 /\ k' = k + 1 /\ got' = 0
        /\ UNCHANGED <<script, fail, at, pos, res>>
Over == res = "run" /\ k > Len(Demands) /\ res' = "ok" /\ UNCHANGED <<script, fail, at, pos, k, got>>
Next == Call \/ Turn \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Total == Sum(Demands)
Outcome == IF fail < Total /\ fail <= Size THEN "failed" ELSE IF Size < Total THEN "eof" ELSE "ok"
Independent == res # "run" => /\ res = Outcome
                              /\ pos = (IF res = "ok" THEN Total ELSE IF res = "failed" THEN fail ELSE Size)
Ends == <>(res # "run")
==============================================================================
