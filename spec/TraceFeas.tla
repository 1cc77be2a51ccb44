------------------------------ MODULE TraceFeas ------------------------------
EXTENDS QP, Judge
XStart(c) == c.p
XAdvance(p, ev) == p
XVerdict(p, ev) ==
  IF ev.ev = "wronglength" THEN Cl("points of the wrong length are rejected", ev.exc = "QiskitOptimizationError")
  ELSE Cl("violated variables", Range1(ev.vars) = ViolVarsX(p, ev.x, ev.X) /\ Len(ev.vars) = Cardinality(ViolVarsX(p, ev.x, ev.X)))
       \cup Cl("violated linear constraints", Range1(ev.lcs) = ViolLinX(p, ev.x, ev.X) /\ Len(ev.lcs) = Cardinality(ViolLinX(p, ev.x, ev.X)))
       \cup Cl("violated quadratic constraints", Range1(ev.qcs) = ViolQuadX(p, ev.x, ev.X) /\ Len(ev.qcs) = Cardinality(ViolQuadX(p, ev.x, ev.X)))
       \cup Cl("feasible iff nothing is violated", ev.feasible = FeasibleX(p, ev.x, ev.X) /\ ev.isfeasible = ev.feasible)
       \cup Cl("program as built", SameProgram(p, ev.after))
=============================================================================
