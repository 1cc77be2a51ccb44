---------------------------- MODULE TraceOptimum ----------------------------
(* Exact back ends against exhaustive search in the specification.           *)
EXTENDS Results, Optimum, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  LET p == ev.p IN
  CASE ev.ev = "discrete" ->
         LET F == FeasPoints(p) IN
         IF F = {} THEN Cl("no feasible solution is claimed when there is none", ev.status # "SUCCESS")
         ELSE Cl("feasible solution found", ev.status = "SUCCESS" /\ ev.x \in F)
              \cup Cl("value is the true optimum", ev.status = "SUCCESS" => ev.fval = BestOf(p, F))
    [] ev.ev = "large" ->     \* one constraint, separable objective
         LET best == DpBest(p) IN
         IF best = NONE THEN Cl("no feasible solution is claimed when there is none", ev.status # "SUCCESS")
         ELSE Cl("feasible solution found", ev.status = "SUCCESS" /\ Len(ev.x) = NVars(p) /\ Feasible(p, ev.x))
              \cup Cl("value is the true optimum", ev.status = "SUCCESS" => ev.fval = DpValue(p))
    [] ev.ev = "mixed" ->   \* points in units of 1/X; candidates are grid points
         LET F == {x \in Range1(ev.cands) : FeasibleX(p, x, ev.X)} IN
         IF ev.status = "NONE" THEN Cl("a solution is found when a feasible point exists", F = {})
         ELSE Cl("solution is feasible up to the solver's tolerance", ~ClearlyOut(p, ev.x, ev.X))
              \cup Cl("value belongs to the solution", ValueNear(p, [x |-> ev.x, fval |-> ev.fval], ev.X, 16))
              \cup Cl("no feasible point is better", \A x \in F : p.sense * ObjX(p, x, ev.X) >= p.sense * ev.fval - ev.tol)
              \cup Cl("discrete variables take whole values", \A i \in 1..NVars(p) : p.vars[i].type # "C" => ev.x[i] % ev.X = 0)
=============================================================================
