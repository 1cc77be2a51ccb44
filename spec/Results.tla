------------------------------ MODULE Results ------------------------------
(* What a result says about the problem it answers.  r = [x, fval, status,   *)
(* names, dict: sequence of [k, v], byidx, byname, samples].                 *)
EXTENDS QP

Coherent(p, r) ==
  /\ Len(r.x) = NVars(p)
  /\ r.names = [i \in 1..NVars(p) |-> p.vars[i].name]
  /\ r.varnames = r.names
  /\ Len(r.dict) = NVars(p) /\ \A i \in 1..NVars(p) : r.dict[i] = [k |-> r.names[i], v |-> r.x[i]]
  /\ r.byidx = r.x /\ r.byname = r.x
\* exact data
ValueOK(p, s, X) == s.fval = ObjX(p, s.x, X)
StatusOK(p, s, X) == (s.status = "SUCCESS") = FeasibleX(p, s.x, X)
\* data rounded to units of 1/X per variable: the objective is off by at most
Slope(lin, quad, x, X) == SumSeq([i \in 1..Len(x) |-> X * Abs(lin[i])])
   + SumSeq([i \in 1..Len(x) |-> SumSeq([j \in 1..Len(x) |-> Abs(quad[i][j]) * (Abs(x[i]) + Abs(x[j]) + 1)])])
ValueNear(p, s, X, slack) == Abs(s.fval - ObjX(p, s.x, X)) <= Slope(p.lin, p.quad, s.x, X) + slack
QuadOf(c, n) == IF "quad" \in DOMAIN c THEN c.quad ELSE ZeroMat(n)
Gap(c, x, X) == LET d == LhsX(c, x, X) - c.rhs * X * X IN
                CASE c.sense = "LE" -> d [] c.sense = "GE" -> -d [] c.sense = "EQ" -> Abs(d)
AllCons(p) == Range1(p.lc) \cup Range1(p.qc)
\* by more than the rounding can account for
ClearlyOut(p, x, X) ==
  \/ \E i \in 1..NVars(p) : \/ p.vars[i].lb > -INF /\ (x[i] + 2) * p.S < p.vars[i].lb * X
                            \/ p.vars[i].ub < INF /\ (x[i] - 2) * p.S > p.vars[i].ub * X
  \/ \E c \in AllCons(p) : Gap(c, x, X) > 4 * Slope(c.lin, QuadOf(c, Len(x)), x, X) + 4
ClearlyIn(p, x, X) ==
  /\ \A i \in 1..NVars(p) : /\ p.vars[i].lb > -INF => (x[i] - 2) * p.S > p.vars[i].lb * X
                            /\ p.vars[i].ub < INF => (x[i] + 2) * p.S < p.vars[i].ub * X
  /\ \A c \in AllCons(p) : c.sense # "EQ" /\ -Gap(c, x, X) > 4 * Slope(c.lin, QuadOf(c, Len(x)), x, X) + 4
StatusNear(p, s, X) == /\ ClearlyOut(p, s.x, X) => s.status # "SUCCESS"
                       /\ ClearlyIn(p, s.x, X) => s.status = "SUCCESS"
=============================================================================
