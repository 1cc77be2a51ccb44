---------------------------- MODULE MCCover ----------------------------
(* The binary encoding covers every integer range exactly. *)
EXTENDS Converters
VARIABLE r
Init == r \in 0..200
Next == r < 200 /\ r % 201 = r /\ UNCHANGED r
Spec == Init /\ [][Next]_r
WeightsCover == Covers(RefWeights(r), r) /\ \A k \in 1..Len(RefWeights(r)) : RefWeights(r)[k] >= 0
CoverMeaning == r <= 63 => LET w == <<r % 4, (r \div 4) % 4, r \div 16>> IN
   Covers(w, w[1] + w[2] + w[3]) <=> ({SumSeq([i \in 1..3 |-> b[i] * w[i]]) : b \in AllBits(3)} = 0..(w[1] + w[2] + w[3]))
=============================================================================
