----------------------------- MODULE MCResults -----------------------------
(* Rounding lemma behind the tolerant comparisons: for every small program   *)
(* and every exact point, the rounded observation of a truthful result is    *)
(* accepted, and status verdicts never contradict exact feasibility.         *)
EXTENDS Results
CONSTANTS X, F      \* coarse unit, refinement
C == {-2, 0, 1}
VARIABLES p, y
Progs == {[S |-> 1, vars |-> <<[name |-> "a", type |-> "C", lb |-> 0, ub |-> 1], [name |-> "b", type |-> "C", lb |-> -1, ub |-> INF]>>,
           sense |-> 1, const |-> 1, lin |-> <<l, m>>, quad |-> <<<<q, r>>, <<0, 1>>>>,
           lc |-> <<[name |-> "c", lin |-> <<m, 1>>, sense |-> s, rhs |-> l]>>, qc |-> <<>>] :
           l \in C, m \in C, q \in C, r \in C, s \in {"LE", "GE", "EQ"}}
Init == p \in Progs /\ y \in [1..2 -> (-X * F)..(2 * X * F)]
Next == UNCHANGED <<p, y>>
Spec == Init /\ [][Next]_<<p, y>>
Fine == X * F
Rnd(v, d) == (2 * v + d) \div (2 * d)          \* nearest integer to v/d
Seen == [x |-> [i \in 1..2 |-> Rnd(y[i], F)], fval |-> Rnd(ObjX(p, y, Fine), F * F), status |-> IF FeasibleX(p, y, Fine) THEN "SUCCESS" ELSE "INFEASIBLE"]
Truthful == ValueNear(p, Seen, X, 1) /\ StatusNear(p, Seen, X)
=============================================================================
