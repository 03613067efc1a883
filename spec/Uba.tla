--------------------------------- MODULE Uba ---------------------------------
(* An unaligned bit array as its users see it (C14): a queue of bits.         *)
(* Values enter most significant bit first, without padding between them;     *)
(* flushing fills the last byte with zeros; reading past the end is an error. *)
EXTENDS Integers, Sequences
CONSTANT ByteBits
VARIABLES bits,   \* everything written
          pos     \* how many bits have been read
uvars == <<bits, pos>>

PadBits(b) == LET r == Len(b) % ByteBits IN IF r = 0 THEN b ELSE b \o [i \in 1..(ByteBits - r) |-> 0]

UInit == bits = <<>> /\ pos = 0
\* v: the bits of the value, as many as its width
Write(v) == bits' = bits \o v /\ UNCHANGED pos
Flush == bits' = PadBits(bits) /\ UNCHANGED pos
\* Whether a read of the given widths succeeds, and what it returns
Has(ws) == LET S[i \in 0..Len(ws)] == IF i = 0 THEN 0 ELSE S[i - 1] + ws[i] IN pos + S[Len(ws)] <= Len(bits)
Values(ws) ==
  LET S[i \in 0..Len(ws)] == IF i = 0 THEN pos ELSE S[i - 1] + ws[i]
  IN [i \in 1..Len(ws) |-> SubSeq(bits, S[i - 1] + 1, S[i])]
Read(ws) ==
  LET S[i \in 0..Len(ws)] == IF i = 0 THEN pos ELSE S[i - 1] + ws[i]
  IN Has(ws) /\ pos' = S[Len(ws)] /\ UNCHANGED bits
==============================================================================
