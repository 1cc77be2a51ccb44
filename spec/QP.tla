--------------------------------- MODULE QP ---------------------------------
(* A quadratic program and its meaning.                                      *)
(*   p.S     scale: every coefficient, bound and right-hand side is an       *)
(*           integer in units of 1/S                                         *)
(*   p.vars  sequence of [name, type, lb, ub], type in {"B","I","C"}         *)
(*   p.sense 1 (minimise) or -1 (maximise);  p.const, p.lin, p.quad          *)
(*   p.lc    sequence of [name, lin, sense, rhs]                             *)
(*   p.qc    sequence of [name, lin, quad, sense, rhs]                       *)
(* A point x is given in units of 1/X, so a value of an expression is in     *)
(* units of 1/(S*X*X).                                                       *)
EXTENDS Num

NVars(p) == Len(p.vars)
LinVal(lin, x) == Dot(lin, x)
ObjX(p, x, X) == p.const * X * X + X * Dot(p.lin, x) + Quad(p.quad, x)
Obj(p, x) == ObjX(p, x, 1)

LhsX(c, x, X) == X * Dot(c.lin, x) + (IF "quad" \in DOMAIN c THEN Quad(c.quad, x) ELSE 0)
Lhs(c, x) == LhsX(c, x, 1)
Holds(sense, lhs, rhs) == CASE sense = "LE" -> lhs <= rhs
                            [] sense = "GE" -> lhs >= rhs
                            [] sense = "EQ" -> lhs = rhs
ConHoldsX(c, x, X) == Holds(c.sense, LhsX(c, x, X), c.rhs * X * X)
ConHolds(c, x) == ConHoldsX(c, x, 1)
BoundHoldsX(p, v, xi, X) == /\ v.lb > -INF => v.lb * X <= xi * p.S
                            /\ v.ub < INF => xi * p.S <= v.ub * X
ViolVarsX(p, x, X) == {p.vars[i].name : i \in {j \in 1..NVars(p) : ~BoundHoldsX(p, p.vars[j], x[j], X)}}
ViolLinX(p, x, X) == {p.lc[i].name : i \in {j \in 1..Len(p.lc) : ~ConHoldsX(p.lc[j], x, X)}}
ViolQuadX(p, x, X) == {p.qc[i].name : i \in {j \in 1..Len(p.qc) : ~ConHoldsX(p.qc[j], x, X)}}
FeasibleX(p, x, X) == /\ \A i \in 1..NVars(p) : BoundHoldsX(p, p.vars[i], x[i], X)
                      /\ \A i \in 1..Len(p.lc) : ConHoldsX(p.lc[i], x, X)
                      /\ \A i \in 1..Len(p.qc) : ConHoldsX(p.qc[i], x, X)
Feasible(p, x) == FeasibleX(p, x, 1)

\* all assignments of a purely discrete program within its bounds
Dom(p, i) == IF p.vars[i].type = "B" THEN {0, 1}
             ELSE CeilDiv(p.vars[i].lb, p.S)..(p.vars[i].ub \div p.S)
Points(p) == Prod([i \in 1..NVars(p) |-> Dom(p, i)])
FeasPoints(p) == {x \in Points(p) : Feasible(p, x)}
\* best value among a non-empty set of points
BestOf(p, P) == LET vals == {p.sense * Obj(p, x) : x \in P}
                IN p.sense * (CHOOSE v \in vals : \A w \in vals : v <= w)
Better(p, a, b) == p.sense * a < p.sense * b     \* a strictly better than b
Argmin(p, P) == {x \in P : \A y \in P : p.sense * Obj(p, x) <= p.sense * Obj(p, y)}

\* same denotation
SameVars(p, q) == /\ NVars(p) = NVars(q)
                  /\ \A i \in 1..NVars(p) : LET a == p.vars[i] b == q.vars[i] IN
                        a.name = b.name /\ a.type = b.type /\ a.lb = b.lb /\ a.ub = b.ub
SameObjective(p, q) == p.sense = q.sense /\ p.const = q.const /\ p.lin = q.lin /\ Triu(p.quad) = Triu(q.quad)
SameLin(a, b) == a.name = b.name /\ a.lin = b.lin /\ a.sense = b.sense /\ a.rhs = b.rhs
SameQuad(a, b) == SameLin(a, b) /\ Triu(a.quad) = Triu(b.quad)
SameCons(p, q) == /\ Len(p.lc) = Len(q.lc) /\ Len(p.qc) = Len(q.qc)
                  /\ \A i \in 1..Len(p.lc) : SameLin(p.lc[i], q.lc[i])
                  /\ \A i \in 1..Len(p.qc) : SameQuad(p.qc[i], q.qc[i])
SameProgram(p, q) == SameVars(p, q) /\ SameObjective(p, q) /\ SameCons(p, q)
AllBinary(p) == \A i \in 1..NVars(p) : p.vars[i].type = "B"
=============================================================================
