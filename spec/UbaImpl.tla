------------------------------- MODULE UbaImpl -------------------------------
(* The writer and reader as the code builds them: the writer collects bits in *)
(* a byte and passes whole bytes on; the reader fetches up to Store bytes at a *)
(* time from a stream that may deliver fewer, keeps them left aligned in a     *)
(* register and takes values from its top, possibly across several fetches.    *)
(* TLC checks that this implements Uba for every small width, value, stream.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS ByteBits, Store, MaxWidth, MaxWrites
VARIABLES bits, pos,          \* the abstract queue
          cur, out,           \* writer: bits of the unfinished byte; bytes passed on
          phase, nw,
          reg, src,           \* reader: bits in the register; position in `out`
          need, part, got, want, failed
vars == <<bits, pos, cur, out, phase, nw, reg, src, need, part, got, want, failed>>
U == INSTANCE Uba
Values == UNION {[1..w -> {0, 1}] : w \in 0..MaxWidth}

Init == /\ U!UInit
        /\ cur = <<>> /\ out = <<>> /\ phase = "write" /\ nw = 0
        /\ reg = <<>> /\ src = 0 /\ need = 0 /\ part = <<>> /\ got = <<>> /\ want = <<>> /\ failed = FALSE
\* Splits the collected bits into whole bytes and a rest
RECURSIVE Push(_, _)
Push(c, o) == IF Len(c) < ByteBits THEN <<c, o>>
              ELSE Push(SubSeq(c, ByteBits + 1, Len(c)), Append(o, SubSeq(c, 1, ByteBits)))
WriteVal == /\ phase = "write" /\ nw < MaxWrites
            /\ \E v \in Values :
                 /\ U!Write(v)
                 /\ LET p == Push(cur \o v, out) IN cur' = p[1] /\ out' = p[2]
            /\ nw' = nw + 1
            /\ UNCHANGED <<phase, reg, src, need, part, got, want, failed>>
FlushIt == /\ phase = "write"
           /\ U!Flush
           /\ IF cur = <<>> THEN UNCHANGED <<cur, out>>
              ELSE cur' = <<>> /\ out' = Append(out, U!PadBits(cur))
           /\ phase' = "idle"
           /\ UNCHANGED <<nw, reg, src, need, part, got, want, failed>>
\* The next value asked for
Start == /\ phase = "idle"
         /\ \E w \in 0..MaxWidth : need' = w /\ want' = IF U!Has(<<w>>) THEN U!Values(<<w>>) ELSE <<>>
         /\ phase' = "take" /\ part' = <<>>
         /\ UNCHANGED <<bits, pos, cur, out, nw, reg, src, got, failed>>
Take == /\ phase = "take" /\ need > 0 /\ reg # <<>>
        /\ LET n == IF need < Len(reg) THEN need ELSE Len(reg)
           IN /\ part' = part \o SubSeq(reg, 1, n)
              /\ reg' = SubSeq(reg, n + 1, Len(reg))
              /\ need' = need - n
        /\ UNCHANGED <<bits, pos, cur, out, phase, nw, src, got, want, failed>>
\* One read call on the stream: some of what is left
Fetch == /\ phase = "take" /\ need > 0 /\ reg = <<>> /\ src < Len(out)
         /\ \E n \in 1..Store :
              /\ src + n <= Len(out)
              /\ LET S[i \in 0..n] == IF i = 0 THEN <<>> ELSE S[i - 1] \o out[src + i] IN reg' = S[n]
              /\ src' = src + n
         /\ UNCHANGED <<bits, pos, cur, out, phase, nw, need, part, got, want, failed>>
AtEnd == /\ phase = "take" /\ need > 0 /\ reg = <<>> /\ src = Len(out)
         /\ failed' = TRUE /\ phase' = "over"
         /\ UNCHANGED <<bits, pos, cur, out, nw, reg, src, need, part, got, want>>
Return == /\ phase = "take" /\ need = 0
          /\ got' = <<part>> /\ phase' = "check"
          /\ UNCHANGED <<bits, pos, cur, out, nw, reg, src, need, part, want, failed>>
Next1 == /\ phase = "check" /\ want # <<>>
         /\ U!Read(<<Len(part)>>)
         /\ phase' = "idle" /\ got' = <<>> /\ want' = <<>> /\ part' = <<>>
         /\ UNCHANGED <<cur, out, nw, reg, src, need, failed>>
Done == phase \in {"over"} /\ UNCHANGED vars
Next == WriteVal \/ FlushIt \/ Start \/ Take \/ Fetch \/ AtEnd \/ Return \/ Next1 \/ Done
Spec == Init /\ [][Next]_vars
\* What is returned is what the queue holds, and exactly the reads past the end fail
Correct == /\ phase = "check" => got = want
           /\ failed => want = <<>>
\* What was passed on is what was written
Passed == LET S[i \in 0..Len(out)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o out[i]
          IN S[Len(out)] \o cur = bits
==============================================================================
