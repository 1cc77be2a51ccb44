-------------------------- MODULE TraceMultiStart --------------------------
EXTENDS MultiStart, Judge
XStart(c) == MInit
XAdvance(s, ev) == IF ev.ev = "trial" THEN MTrial(ev.p, s, ev.x) ELSE s
Funs(ev) ==
  LET p == ev.p pts == ev.pts IN
  Cl("objective handed to the local solver is that of the problem, for minimisation",
     \A m \in 1..Len(pts) : ev.obj[m] - ev.obj[1] = p.sense * (ObjX(p, pts[m], 2) - ObjX(p, pts[1], 2)))
  \cup Cl("gradient handed to the local solver is that of the objective",
     ev.grad # <<>> => \A m \in 1..Len(pts) : \A i \in 1..NVars(p) : ev.grad[m][i] = p.sense * Gradient(p, pts[m], i))
  \cup Cl("bounds handed to the local solver are those of the problem",
     ev.bounds # <<>> => /\ Len(ev.bounds) = NVars(p)
                         /\ \A i \in 1..NVars(p) : ev.bounds[i][1] = p.vars[i].lb /\ ev.bounds[i][2] = p.vars[i].ub)
  \cup Cl("constraint functions describe the constraints of the problem",
     Describes(p, IF ev.bounds = <<>> THEN RealCons(p) \cup BoundCons(p) ELSE RealCons(p), pts, ev.funs))
XVerdict(s, ev) ==
  CASE ev.ev = "trial" ->
         Cl("number of trials", s.k < ev.trials)
         \cup Cl("start points lie within the bounds", StartOK(ev.p, s, ev.x0, ev.clip))
    [] ev.ev = "funs" -> Funs(ev)
    [] ev.ev = "end" ->
         Cl("number of trials", s.k = ev.trials)
         \cup Cl("start points vary", ev.vary)
         \cup Cl("settings reach the local solver", ev.asked = ev.given)
         \cup (IF s.k = 0 THEN {} ELSE
               Cl("result is the answer of a best trial", \E k \in s.best.who : ev.xs[k] = ev.x /\ (ev.rest = 0 \/ ev.rest = k))
               \cup Cl("value and status are those of the problem",
                       ev.fval = ObjX(ev.p, ev.x, 2) /\ ev.ok = FeasibleX(ev.p, ev.x, 2)))
    [] ev.ev = "real" ->       \* separable strictly convex problem on a box: the optimum is the projected centre
         Cl("local search finds the optimum of a separable convex problem",
            \A i \in 1..NVars(ev.p) : LET v == ev.p.vars[i] IN
              Abs(ev.x[i] - Max2(500 * v.lb, Min2(500 * v.ub, 500 * ev.t[i]))) <= 20)
=============================================================================
