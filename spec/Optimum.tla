------------------------------ MODULE Optimum ------------------------------
(* The best objective value of a program with one linear constraint and a    *)
(* separable objective, by dynamic programming over the variables: reaches   *)
(* sizes at which enumerating the assignments is hopeless.                   *)
EXTENDS QP
NONE == 1073741823        \* total not reached
SetMax(A) == CHOOSE a \in A : \A b \in A : b <= a
SetMin(A) == CHOOSE a \in A : \A b \in A : a <= b
\* contribution of the value a of variable k to the objective, to be minimised
Part(p, k, a) == p.sense * (p.lin[k] * a + p.quad[k][k] * a * a)
\* table: total of the constraint's left-hand side -> least objective
Span(p, k) == LET w == {p.lc[1].lin[k] * a : a \in Dom(p, k)} IN [lo |-> SetMin(w), hi |-> SetMax(w)]
Layer(p, t, k) ==
  LET w == p.lc[1].lin[k] D == Dom(p, k) s == Span(p, k) lo == t.lo + s.lo hi == t.hi + s.hi
      cost == [a \in D |-> Part(p, k, a)]
      At(v) == {t.f[v - w * a] + cost[a] : a \in {b \in D : /\ v - w * b >= t.lo /\ v - w * b <= t.hi
                                                           /\ t.f[v - w * b] # NONE}}
  IN [lo |-> lo, hi |-> hi, f |-> [v \in lo..hi |-> LET A == At(v) IN IF A = {} THEN NONE ELSE SetMin(A)]]
RECURSIVE Table(_, _)
Table(p, k) == IF k = 0 THEN [lo |-> 0, hi |-> 0, f |-> [v \in 0..0 |-> 0]]
               ELSE LET t == Table(p, k - 1) IN Layer(p, t, k)
\* the least normalised objective over the assignments that satisfy the constraint, NONE if there is none
DpBest(p) == LET t == Table(p, NVars(p))
                 A == {t.f[v] : v \in {u \in t.lo..t.hi : t.f[u] # NONE /\ Holds(p.lc[1].sense, u, p.lc[1].rhs)}}
             IN IF A = {} THEN NONE ELSE SetMin(A)
DpValue(p) == p.sense * DpBest(p) + p.const
=============================================================================
