------------------------------- MODULE MCCuts -------------------------------
(* Generate, sort, drop repeated cuts: every sequence of sampled cuts on     *)
(* every weighted triangle.                                                  *)
EXTENDS Cuts
CONSTANTS Num, Ws
VARIABLES w, got, out, phase
Mat(a, b, c) == <<<<0, a, b>>, <<a, 0, c>>, <<b, c, 0>>>>
Init == (\E a, b, c \in Ws : w = Mat(a - 1, b - 1, c - 1)) /\ got = <<>> /\ out = <<>> /\ phase = "cut"
Sample == phase = "cut" /\ Len(got) < Num /\ (\E x \in AllBits(3) : got' = Append(got, x)) /\ UNCHANGED <<w, out, phase>>
Norm(x) == IF x[1] = 1 THEN Flip(x) ELSE x
Left == {Norm(x) : x \in Range1(got)} \ Range1(out)
Rank == /\ phase = "cut" /\ Len(got) = Num /\ Left # {}
        /\ \E x \in Left : (\A y \in Left : CutVal(w, x) >= CutVal(w, y)) /\ out' = Append(out, x)
        /\ UNCHANGED <<w, got, phase>>
Spec == Init /\ [][Sample \/ Rank]_<<w, got, out, phase>>
\* normalising does not change a cut's value; nothing is repeated, even as a complement; the first is the best generated
Symmetric == \A x \in AllBits(3) : CutVal(w, x) = CutVal(w, Flip(x))
Unrepeated == \A i, j \in 1..Len(out) : i # j => out[i] # out[j] /\ out[i] # Flip(out[j])
First == out # <<>> => \A k \in 1..Num : CutVal(w, out[1]) >= CutVal(w, got[k])
\* the relaxation at the correlation matrix of a cut is the value of the cut
Tight == \A x \in AllBits(3) : Relaxed(w, [i \in 1..3 |-> [j \in 1..3 |-> IF x[i] = x[j] THEN 1000 ELSE -1000]]) = 2000 * CutVal(w, x)
=============================================================================
