------------------------------- MODULE NormMC --------------------------------
(* The relation of NormTrace on small integer vectors: it accepts the correct  *)
(* result and none that is off in one component, of another sign, unscaled or  *)
(* scaled by the largest component only.                                       *)
EXTENDS Quant, TLC
CONSTANT N
VARIABLE k
NT == INSTANCE NormTrace WITH Prop <- "C22", s <- 0, l <- 0, verdict <- "", m <- 0
Init == k \in {<<a, b, c>> : a, b, c \in -N..N} \ {<<0, 0, 0>>}
Next == FALSE /\ UNCHANGED k
R == <<NT!Nearest(k[1], k), NT!Nearest(k[2], k), NT!Nearest(k[3], k)>>
Big == MaxOf({Abs(k[c]) : c \in 1..3})
Accepts == NT!Right(k, R, TRUE)
Rejects == /\ ~NT!Right(k, <<-R[1], -R[2], -R[3]>>, TRUE)
           /\ \A c \in 1..3 : ~NT!Right(k, [R EXCEPT ![c] = @ + 200], TRUE)
           /\ \A c \in 1..3 : R[c] # 0 => ~NT!Right(k, [R EXCEPT ![c] = -@], TRUE)
           /\ ~NT!Right(k, R, FALSE)
           /\ (Cardinality({c \in 1..3 : k[c] # 0}) > 1 => ~NT!Right(k, [c \in 1..3 |-> (k[c] * 16384) \div Big], TRUE))
==============================================================================
