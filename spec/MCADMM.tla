------------------------------- MODULE MCADMM -------------------------------
(* One or two binary variables and a continuous one, every answer of the     *)
(* sub-solvers.  minimise  b1 - c  subject to  c <= b1 (and b1 + b2 = 1).    *)
EXTENDS ADMM
CONSTANTS Three, Vary, MaxIter, TwoBins
VARIABLE s
VB(nm) == [name |-> nm, type |-> "B", lb |-> 0, ub |-> 2]
VC(nm) == [name |-> nm, type |-> "C", lb |-> 0, ub |-> 2]
Op1 == [S |-> 2, vars |-> <<VB("b"), VC("c")>>, sense |-> 1, const |-> 0, lin |-> <<2, -4>>, quad |-> ZeroMat(2),
        lc |-> <<[name |-> "k", lin |-> <<-2, 2>>, sense |-> "LE", rhs |-> 0]>>, qc |-> <<>>]
Op2 == [S |-> 2, vars |-> <<VB("b"), VB("d"), VC("c")>>, sense |-> -1, const |-> 0, lin |-> <<2, 0, 4>>, quad |-> ZeroMat(3),
        lc |-> <<[name |-> "k", lin |-> <<-2, 0, 2>>, sense |-> "LE", rhs |-> 0], [name |-> "e", lin |-> <<2, 2, 0>>, sense |-> "EQ", rhs |-> 2]>>,
        qc |-> <<>>]
Op == IF TwoBins THEN Op2 ELSE Op1
n == NVars(Op)
Par == [R |-> 16, L |-> 32, rho |-> 16, fc |-> 2, beta |-> 2, maxiter |-> MaxIter, tol2 |-> 0, once |-> FALSE, three |-> Three, vary |-> Vary,
        mures |-> 2, mumerit |-> 3, tauI |-> 2, tauD |-> 2, warm |-> FALSE]
Only(I, V) == {v \in [1..n -> V \cup {0}] : \A i \in 1..n : i \notin I => v[i] = 0}
Seqs(F) == {[i \in 1..n |-> f[i]] : f \in F}
Vars2 == {a \in [x : Only({n}, 0..2), z : Only(BinVars(Op), 0..2)] : \* the solver of the continuous block respects its constraints
            \A k \in 1..Len(Op.lc) : k \in BinEqs(Op) \/ ConHoldsX(Op.lc[k], Plus(a.x, a.z), 2)}
\* the solver of the binary block minimises exactly
Bits1 == {[i \in 1..n |-> x[i]] : x \in Only(BinVars(Op), {1})}
Best1 == {x \in Bits1 : \A y \in Bits1 : Block1(Op, Par, s, x) <= Block1(Op, Par, s, y)}
Dbl(x) == [i \in 1..n |-> 2 * x[i]]
Init == s = AStart(Op, Par)
Go == LET blk == Next1(Op, s) IN
      /\ s.pc # "done"
      /\ CASE blk = "one" -> \E x \in Best1 : s' = AStep(Op, Par, s, blk, [x0 |-> Dbl(x)])
           [] blk = "two" -> \E a \in Vars2 : s' = AStep(Op, Par, s, blk, [u |-> a.x, z |-> a.z])
           [] blk = "three" -> \E y \in Only(BinVars(Op), {-2, 1}) : s' = AStep(Op, Par, s, blk, [y |-> y])
Spec == Init /\ [][Go]_s /\ WF_s(Go)
\* binary iterates are binary; multipliers are the accumulated residuals
Binary == \A k \in 1..Len(s.log) : \A i \in 1..n : s.log[k].x0[i] \in {0, 2}
\* consensus makes the reported point satisfy the constraints of the continuous block
ConsensusFeasible == \A k \in 1..Len(s.log) : (s.log[k].p2 = 0 /\ s.log[k].y = NoVec(Op)) =>
                       \A j \in 1..Len(Op.lc) : j \in BinEqs(Op) \/ ConHoldsX(Op.lc[j], Plus(s.log[k].x0, s.log[k].u), 2)
\* without the condition on the slack block this is wrong (refuted by TLC in the three-block form)
ConsensusAlways == \A k \in 1..Len(s.log) : s.log[k].p2 = 0 =>
                       \A j \in 1..Len(Op.lc) : j \in BinEqs(Op) \/ ConHoldsX(Op.lc[j], Plus(s.log[k].x0, s.log[k].u), 2)
RhoPositive == s.rho > 0
MeritExact == \A k \in 1..Len(s.log) : s.log[k].cr = 0 => s.log[k].merit = s.log[k].cost
Loop == Len(s.log) = s.it /\ s.it <= MaxIter /\ (s.pc = "done" <=> (s.it = MaxIter \/ (s.it > 0 /\ s.log[s.it].p2 <= Par.tol2 /\ s.pc = "done")))
Ends == <>(s.pc = "done")
=============================================================================
