----------------------------- MODULE MCExchange -----------------------------
(* Moving terms across a comparison, and flipping it, never changes which    *)
(* points satisfy it.                                                        *)
EXTENDS Exchange
VARIABLES c, phase
Side == [const : {-1, 0, 2}, lin : {<<0, 1>>, <<-1, 2>>, <<0, 0>>}, quad : {<<<<0, 0>>, <<0, 0>>>>, <<<<1, 0>>, <<2, 0>>>>, <<<<0, -1>>, <<0, 1>>>>}]
Init == c \in [name : {"c"}, sense : {"LE", "GE", "EQ"}, left : Side, right : Side] /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, phase>>
SameMeaning == phase = 1 => \A x \in (-2..2) \X (-2..2) :
   (HoldsTwo(c, x) <=> HoldsOne(Moved(c), x)) /\ (HoldsOne(Moved(c), x) <=> HoldsOne(Flip(Moved(c)), x))
\* dropping a hollow constraint is harmless exactly when it is trivial
HollowMeaning == phase = 1 => LET d == Moved(c) IN Hollow(d) =>
   /\ Trivial(d) # Impossible(d)
   /\ \A x \in (-2..2) \X (-2..2) : HoldsOne(d, x) <=> Trivial(d)
=============================================================================
