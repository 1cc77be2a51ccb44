----------------------------- MODULE TraceADMM -----------------------------
EXTENDS ADMM, Judge
XStart(c) == [a |-> AStart(c.op, c.par), op |-> c.op, par |-> c.par]
Pos(p, nm) == {i \in 1..NVars(p) : p.vars[i].name = nm}
Names(p) == {p.vars[i].name : i \in 1..NVars(p)}
At(p, nm) == CHOOSE i \in 1..NVars(p) : p.vars[i].name = nm
\* an answer for the variables of p as a vector over those of op
Spread(op, p, ans, I) == [i \in 1..NVars(op) |-> IF i \in I /\ op.vars[i].name \in Names(p) THEN ans[At(p, op.vars[i].name)] ELSE 0]
AnsOf(op, blk, p, ans) ==
  LET B == BinVars(op) C == (1..NVars(op)) \ B IN
  [x0 |-> Spread(op, p, ans, B), z |-> Spread(op, p, ans, B), y |-> Spread(op, p, ans, B), u |-> Spread(op, p, ans, C)]
BlkOf(s) == Next1(s.op, s.a)
XAdvance(s, ev) ==
  IF ev.ev # "call" THEN s
  ELSE LET ans == AnsOf(s.op, BlkOf(s), ev.p, ev.ans) IN
       [s EXCEPT !.a = IF s.a.pc = "warm" THEN AWarm(s.a, ans) ELSE AStep(s.op, s.par, s.a, BlkOf(s), ans)]
\* constraints of p (scale L) are those of op (scale 2) with numbers in K
Up(c, f) == IF "quad" \in DOMAIN c THEN [name |-> c.name, sense |-> c.sense, rhs |-> f * c.rhs, lin |-> [i \in 1..Len(c.lin) |-> f * c.lin[i]],
                                         quad |-> [i \in 1..Len(c.lin) |-> [j \in 1..Len(c.lin) |-> f * Triu(c.quad)[i][j]]]]
            ELSE [name |-> c.name, sense |-> c.sense, rhs |-> f * c.rhs, lin |-> [i \in 1..Len(c.lin) |-> f * c.lin[i]]]
ConsAre(p, op, K, f) == /\ Len(p.lc) = Cardinality(K) /\ {Up(p.lc[k], 1) : k \in 1..Len(p.lc)} = {Up(op.lc[k], f) : k \in K}
                        /\ Len(p.qc) = Len(op.qc) /\ {Up(p.qc[k], 1) : k \in 1..Len(p.qc)} = {Up(op.qc[k], f) : k \in 1..Len(op.qc)}
NoCons(p) == p.lc = <<>> /\ p.qc = <<>>
SameNames(p, op) == NVars(p) = NVars(op) /\ \A i \in 1..NVars(p) : p.vars[i].name = op.vars[i].name
Bounds2(p, op, f) == \A i \in 1..NVars(op) : LET v == p.vars[i] w == op.vars[i] up(b) == IF Abs(b) >= INF THEN b ELSE f * b IN
                       v.type = "C" /\ v.lb = up(w.lb) /\ v.ub = up(w.ub)
Warm(s, p) == LET op == s.op f == s.par.L \div 2 IN
  Cl("relaxation has the variables of the problem", SameNames(p, op) /\ Bounds2(p, op, f))
  \cup Cl("relaxation has the objective and constraints of the problem",
          /\ ConsAre(p, op, 1..Len(op.lc), f)
          /\ \A i \in 1..NVars(op) : p.sense * p.lin[i] = f * op.sense * op.lin[i]
          /\ \A i, j \in 1..NVars(op) : p.sense * Triu(p.quad)[i][j] = f * op.sense * Triu(op.quad)[i][j])
One(s, p) == LET op == s.op par == s.par
                 full(b) == [i \in 1..NVars(op) |-> IF op.vars[i].name \in Names(p) THEN b[At(p, op.vars[i].name)] ELSE 0] IN
  Then(Cl("binary block has the binary variables of the objective and the binary equalities",
          /\ Cardinality(Names(p)) = NVars(p) /\ Names(p) \subseteq {op.vars[i].name : i \in BinVars(op)}
          /\ {op.vars[i].name : i \in UsedBins(op)} \subseteq Names(p) /\ AllBinary(p) /\ NoCons(p)),
       Cl("binary block is the augmented Lagrangian",
          \A b \in AllBits(NVars(p)) : p.sense * (Obj(p, b) - p.const) = Block1(op, par, s.a, full(b))))
Two(s, p) == LET op == s.op par == s.par f == par.L \div 2 IN
  Then(Cl("continuous block has all variables, the binary ones relaxed", SameNames(p, op) /\ Bounds2(p, op, f)),
       Cl("continuous block is the augmented Lagrangian",
          /\ \A i \in 1..NVars(op) : p.sense * p.lin[i] = Block2Lin(op, par, s.a)[i]
          /\ LET t == Triu(p.quad) w == Block2Quad(op, par, s.a) IN \A i, j \in 1..NVars(op) : p.sense * t[i][j] = w[i][j])
       \cup Cl("continuous block has the constraints not in the binary block", ConsAre(p, op, (1..Len(op.lc)) \ BinEqs(op), f)))
Three(s, p) == LET op == s.op par == s.par IN
  Then(Cl("slack block has one free variable per binary variable",
          /\ NVars(p) = Cardinality(BinVars(op)) /\ Names(p) = {op.vars[i].name : i \in BinVars(op)} /\ NoCons(p)
          /\ \A i \in 1..NVars(p) : p.vars[i].type = "C" /\ p.vars[i].lb <= -INF /\ p.vars[i].ub >= INF),
       Cl("slack block is the augmented Lagrangian",
          /\ \A i \in BinVars(op) : p.sense * p.lin[At(p, op.vars[i].name)] = Block3Lin(op, s.a, i)
          /\ LET t == Triu(p.quad) IN \A i, j \in 1..NVars(p) : p.sense * t[i][j] = IF i = j THEN Block3Diag(par, s.a) ELSE 0))
AllLog(s, f(_), seq) == Len(seq) = Len(s.a.log) /\ \A k \in 1..Len(seq) : seq[k] = f(s.a.log[k])
XVerdict(s, ev) ==
  IF ev.ev = "call" THEN
    IF s.a.pc = "done" THEN {"loop ends when the residual is small or a limit is reached"}
    ELSE LET blk == IF s.a.pc = "warm" THEN "warm" ELSE BlkOf(s) IN
      Then(Cl("blocks are solved in turn by their solvers", ev.who = (IF blk = "one" THEN "qubo" ELSE "cont")),
           CASE blk = "warm" -> Warm(s, ev.p) [] blk = "one" -> One(s, ev.p) [] blk = "two" -> Two(s, ev.p) [] OTHER -> Three(s, ev.p))
  ELSE
    Then(Cl("loop goes on until the residual is small or a limit is reached", s.a.pc = "done"),
    Cl("recorded iterates", /\ AllLog(s, LAMBDA e : e.x0, ev.x0s) /\ AllLog(s, LAMBDA e : e.u, ev.us)
                            /\ AllLog(s, LAMBDA e : e.z, ev.zs) /\ AllLog(s, LAMBDA e : e.y, ev.ys))
    \cup Cl("recorded objective values", AllLog(s, LAMBDA e : e.cost, ev.costs))
    \cup Cl("recorded constraint residuals", AllLog(s, LAMBDA e : e.cr, ev.crs))
    \cup Cl("recorded merits", AllLog(s, LAMBDA e : e.merit, ev.merits))
    \cup Cl("recorded residuals", AllLog(s, LAMBDA e : e.p2, ev.p2s))
    \cup Cl("recorded dual residuals", /\ Len(ev.d2s) = Len(s.a.log)
                                       /\ \A k \in 1..Len(ev.d2s) : (s.par.warm /\ k = 1) \/ ev.d2s[k] = s.a.log[k].d2)
    \cup Cl("multipliers", ev.lam = s.a.lam /\ AllLog(s, LAMBDA e : e.lam2, ev.lam2s))
    \cup Cl("penalty parameter follows the rule", ev.rho = s.a.rho)
    \cup Cl("final iterate", ev.fx0 = s.a.x0 /\ ev.fu = s.a.u /\ ev.fz = s.a.z /\ ev.fy = s.a.y)
    \cup Cl("solution is the iterate of least merit",
            \E k \in LeastMerit(s.a.log) : LET v == Plus(s.a.log[k].x0, s.a.log[k].u) IN
              ev.x = [i \in 1..Len(ev.dec.base) |-> 2 * ev.dec.base[i] + SumSeq([j \in 1..Len(v) |-> ev.dec.cols[j][i] * v[j]])])
    \cup Cl("value and status are those of the original problem",
            /\ Len(ev.x) = NVars(ev.src) /\ ev.fval = ObjX(ev.src, ev.x, 2) /\ ev.ok = FeasibleX(ev.src, ev.x, 2)))
=============================================================================
