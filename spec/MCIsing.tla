------------------------------- MODULE MCIsing -------------------------------
(* The reference translation is exact on every assignment of every small     *)
(* binary objective, in both senses.                                         *)
EXTENDS Ising
VARIABLES p, phase
Vr(i) == [name |-> ToString(i), type |-> "B", lb |-> 0, ub |-> 1]
V == {-2, 0, 1}
Init == /\ \E s \in {1, -1}, l \in [1..2 -> V], m \in [1..2 -> [1..2 -> V]] :
             p = [S |-> 1, vars |-> <<Vr(1), Vr(2), Vr(3)>>, sense |-> s, const |-> 3, lin |-> <<l[1], l[2], 1>>,
                  quad |-> <<<<m[1][1], m[1][2], 0>>, <<m[2][1], m[2][2], -1>>, <<0, 2, 1>>>>, lc |-> <<>>, qc |-> <<>>]
        /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, phase>>
Exact == phase = 1 => \A x \in AllBits(3) : TermsAt(ToIsing(p).terms, x) + ToIsing(p).offset = 4 * p.sense * Obj(p, x)
=============================================================================
