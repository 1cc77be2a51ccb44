------------------------------ MODULE MCCompat ------------------------------
EXTENDS Compat
VARIABLES p, kind, g
Kinds == {"eigen", "slsqp", "cuts", "admm", "cplex", "penalty", "ising"}
Ty == {"B", "I", "C"}
Init == /\ \E a, b \in Ty, c \in {0, 1, 2}, sn \in {"LE", "EQ"}, k \in {0, 1, 2}, x \in {0, 1}, qn \in {0, 1} :
             p = [S |-> 2, vars |-> <<[name |-> "a", type |-> a, lb |-> 0, ub |-> 2], [name |-> "b", type |-> b, lb |-> 0, ub |-> 2]>>,
                  sense |-> 1, const |-> 0, lin |-> <<1, 1>>, quad |-> <<<<0, x>>, <<0, 0>>>>,
                  lc |-> IF k = 0 THEN <<>> ELSE <<[name |-> "c", lin |-> <<2, c>>, sense |-> sn, rhs |-> k]>>,
                  qc |-> IF qn = 0 THEN <<>> ELSE <<[name |-> "q", lin |-> <<0, 0>>, quad |-> <<<<2, 0>>, <<0, 0>>>>, sense |-> "LE", rhs |-> 1]>>]
        /\ kind \in Kinds /\ g = GInit
Next == g' = GStep(kind, p, g) /\ UNCHANGED <<p, kind>>
Spec == Init /\ [][Next]_<<p, kind, g>> /\ WF_<<p, kind, g>>(Next)
Gate == (g \in {"running", "returned"} => Accepts(kind, p)) /\ (g = "refused" => ~Accepts(kind, p))
Decided == <>(g \in {"refused", "returned"})
\* relations between the classes
Classes == /\ Accepts("ising", p) => Accepts("eigen", p) /\ Accepts("cuts", p)
           /\ Accepts("eigen", p) => Accepts("admm", p)
           /\ ~(Accepts("slsqp", p) /\ Accepts("eigen", p))
           /\ (Accepts("penalty", p) /\ OnlyType(p, "B") /\ \A k \in 1..Len(p.lc) : Whole(p, p.lc[k])) => Accepts("eigen", p)
=============================================================================
