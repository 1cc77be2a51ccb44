------------------------------- MODULE MCFeas -------------------------------
(* The feasibility report of QP: nothing named iff feasible; tightening a    *)
(* right-hand side never repairs a violation; the two one-sided senses       *)
(* together are equality.                                                    *)
EXTENDS QP
VARIABLES p, x, phase
Coefs == {-1, 0, 2}
Prog(l, s, r, qd, bd) ==
  [S |-> 1, vars |-> <<[name |-> "a", type |-> "I", lb |-> bd[1], ub |-> bd[2]], [name |-> "b", type |-> "B", lb |-> 0, ub |-> 1]>>,
   sense |-> 1, const |-> 0, lin |-> <<1, 1>>, quad |-> ZeroMat(2),
   lc |-> <<[name |-> "c", lin |-> l, sense |-> s, rhs |-> r]>>,
   qc |-> <<[name |-> "q", lin |-> l, quad |-> <<<<qd, 1>>, <<0, 0>>>>, sense |-> s, rhs |-> r]>>]
Init == /\ \E l \in Coefs \X Coefs, s \in {"LE", "GE", "EQ"}, r \in -2..2, qd \in Coefs, bd \in {<<-1, 1>>, <<0, 0>>, <<1, 3>>} :
              p = Prog(l, s, r, qd, bd)
        /\ x \in (-2..3) \X (-1..2) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<p, x>>
Spec == Init /\ [][Next]_<<p, x, phase>>
Exact == phase = 1 => Feasible(p, x) <=> (ViolVarsX(p, x, 1) = {} /\ ViolLinX(p, x, 1) = {} /\ ViolQuadX(p, x, 1) = {})
Scaled == phase = 1 => \A X \in {1, 2, 3} : FeasibleX(p, [i \in 1..2 |-> X * x[i]], X) = Feasible(p, x)
Split == phase = 1 => LET c == p.lc[1] IN
  Holds("EQ", Lhs(c, x), c.rhs) <=> (Holds("LE", Lhs(c, x), c.rhs) /\ Holds("GE", Lhs(c, x), c.rhs))
InDomain == phase = 1 => Feasible(p, x) <=> (x \in Points(p) /\ x \in FeasPoints(p))
=============================================================================
