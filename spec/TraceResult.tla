---------------------------- MODULE TraceResult ----------------------------
EXTENDS Results, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  LET p == ev.p r == ev.r X == ev.X
      Good(e) == IF ev.exact THEN ValueOK(p, e, X) /\ StatusOK(p, e, X)
                 ELSE ValueNear(p, e, X, ev.slack) /\ StatusNear(p, e, X) /\ ((e.status = "SUCCESS") = e.feas)
  IN
  IF ev.none THEN Cl("failure without a solution is no success", r.status # "SUCCESS")
  ELSE
  Then(Cl("one value per variable, in the problem's order, by every access path", Coherent(p, r)),
  Cl("value of the solution", IF ev.exact THEN ValueOK(p, r, X) ELSE ValueNear(p, r, X, ev.slack))
  \cup Cl("status of the solution", IF ev.exact THEN StatusOK(p, r, X) ELSE StatusNear(p, r, X) /\ ((r.status = "SUCCESS") = r.feas))
  \cup Cl("every sample carries its own value and status",
          Len(r.samples) >= 1 /\ \A i \in 1..Len(r.samples) : Len(r.samples[i].x) = NVars(p) /\ Good(r.samples[i]))
  \cup Cl("problem unchanged", SameProgram(p, ev.after)))
=============================================================================
