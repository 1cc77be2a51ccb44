-------------------------------- MODULE ADMM --------------------------------
(* Alternating directions on a mixed-binary program op (minimisation form is *)
(* op.sense times the objective).  All vectors run over all variables: x0,   *)
(* z, y, lam vanish on continuous variables, u on binary ones.               *)
(*   iterates in units 1/2, rho in units 1/R, lam and the coefficients of    *)
(*   the sub-problems in units 1/L with L = 2R; op has scale 2, so values    *)
(*   at iterates are in units of 1/8.                                        *)
(* One iteration: binary block (x0), continuous block with the binary copies *)
(* (u, z), slack block (y, three-block form only), multiplier update.        *)
EXTENDS Converters

BinVars(op) == {i \in 1..NVars(op) : op.vars[i].type = "B"}
BinEqs(op) == {k \in 1..Len(op.lc) : op.lc[k].sense = "EQ" /\ \A i \in 1..NVars(op) : op.lc[k].lin[i] # 0 => i \in BinVars(op)}
\* binary variables that the binary block is about
UsedBins(op) == {i \in BinVars(op) : \/ op.lin[i] # 0
                                     \/ \E j \in 1..NVars(op) : op.quad[i][j] # 0 \/ op.quad[j][i] # 0
                                     \/ \E k \in BinEqs(op) : op.lc[k].lin[i] # 0}
Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Norm2(a) == Dot(a, a)
NoVec(op) == Zeros(NVars(op))

AStart(op, par) ==
  [x0 |-> NoVec(op), u |-> NoVec(op), z |-> NoVec(op), y |-> NoVec(op), lam |-> NoVec(op), rho |-> par.rho, it |-> 0, zprev |-> NoVec(op),
   pc |-> IF par.warm THEN "warm" ELSE "new", log |-> <<>>]
\* the block that comes next
FirstBlock(op) == IF UsedBins(op) # {} THEN "one" ELSE "two"
After(op, par, pc) == CASE pc = "one" -> "two"
                        [] pc = "two" /\ par.three /\ BinVars(op) # {} -> "three"
                        [] OTHER -> "update"
Next1(op, s) == IF s.pc = "new" THEN FirstBlock(op) ELSE s.pc

\* ------- the sub-problems: augmented Lagrangian restricted to one block
EqGap2(op, x) == SumFn([k \in BinEqs(op) |-> LET g == Dot(op.lc[k].lin, x) - op.lc[k].rhs IN g * g], BinEqs(op))
\* binary block, at a 0/1 vector x, relative to its value at the origin (units 1/L)
Block1(op, par, s, x) ==
  (par.L \div 2) * op.sense * (Dot(op.lin, x) + Quad(op.quad, x))
  + (par.L * par.fc * (EqGap2(op, x) - EqGap2(op, NoVec(op)))) \div 8
  + SumSeq([i \in 1..NVars(op) |-> x[i] * (s.lam[i] + s.rho * (1 - s.z[i] - s.y[i]))])
\* continuous block: linear and upper-triangular quadratic coefficients
Block2Lin(op, par, s) == [i \in 1..NVars(op) |-> IF i \in BinVars(op) THEN -s.lam[i] - s.rho * (s.x0[i] - s.y[i])
                                                 ELSE (par.L \div 2) * op.sense * op.lin[i]]
Block2Quad(op, par, s) ==
  LET t == Triu(op.quad) IN
  [i \in 1..NVars(op) |-> [j \in 1..NVars(op) |->
     IF i \in BinVars(op) \/ j \in BinVars(op) THEN (IF i = j THEN s.rho ELSE 0) ELSE (par.L \div 2) * op.sense * t[i][j]]]
\* slack block
Block3Lin(op, s, i) == -s.lam[i] - s.rho * (s.x0[i] - s.z[i])
Block3Diag(par, s) == (par.L \div 2) * par.beta + s.rho

\* ------- end of an iteration
Point(s) == Plus(s.x0, s.u)
GapOf(c, x) == LET g == LhsX(c, x, 2) - 4 * c.rhs IN
               CASE c.sense = "EQ" -> Abs(g) [] c.sense = "LE" -> Max2(g, 0) [] OTHER -> Max2(-g, 0)
Violation(op, x) == SumSeq([k \in 1..Len(op.lc) |-> GapOf(op.lc[k], x)]) + SumSeq([k \in 1..Len(op.qc) |-> GapOf(op.qc[k], x)])
NewRho(par, s, p2, d2) ==
  IF par.vary = 0 THEN (s.rho * 11) \div 10
  ELSE IF p2 * par.R * par.R > par.mures * par.mures * d2 THEN par.tauI * s.rho
  ELSE IF d2 > par.mures * par.mures * p2 * par.R * par.R THEN s.rho \div par.tauD
  ELSE s.rho
AUpdate(op, par, s) ==
  LET r == Minus(Minus(s.x0, s.z), s.y)
      lam == [i \in 1..NVars(op) |-> s.lam[i] + s.rho * r[i]]
      p2 == Norm2(r)
      d2 == s.rho * s.rho * Norm2(Minus(s.z, s.zprev))
      cost == op.sense * ObjX(op, Point(s), 2)
      cr == Violation(op, Point(s))
      e == [x0 |-> s.x0, u |-> s.u, z |-> s.z, y |-> s.y, cost |-> cost, cr |-> cr, merit |-> cost + par.mumerit * cr,
            p2 |-> p2, d2 |-> d2, lam2 |-> Norm2(lam)]
      it == s.it + 1
  IN [s EXCEPT !.lam = lam, !.log = Append(@, e), !.rho = NewRho(par, s, p2, d2), !.it = it, !.zprev = s.z,
               !.pc = IF it < par.maxiter /\ p2 > par.tol2 /\ ~par.once THEN "new" ELSE "done"]
\* the answer of the block in turn, then the update if the iteration is over
ASet(s, blk, a) == CASE blk = "one" -> [s EXCEPT !.x0 = a.x0]
                     [] blk = "two" -> [s EXCEPT !.u = a.u, !.z = a.z]
                     [] blk = "three" -> [s EXCEPT !.y = a.y]
AStep(op, par, s, blk, a) ==
  LET t == ASet(s, blk, a) nx == After(op, par, blk) IN
  IF nx = "update" THEN AUpdate(op, par, t) ELSE [t EXCEPT !.pc = nx]
AWarm(s, a) == [s EXCEPT !.x0 = a.x0, !.u = a.u, !.z = a.z, !.pc = "new"]
LeastMerit(log) == {k \in 1..Len(log) : \A j \in 1..Len(log) : log[k].merit <= log[j].merit}
=============================================================================
