---------------------------- MODULE TraceSlack ----------------------------
EXTENDS Converters, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
Discrete(p) == \A i \in 1..NVars(p) : p.vars[i].type # "C"
XVerdict(s, ev) ==
  IF ev.ev = "reject" THEN Cl("unsupported input rejected", ev.exc = "QiskitOptimizationError")
  ELSE
  LET p == ev.p d == ev.d IN
  Then(Cl("every constraint is an equality under its old name", AllEqualities(p, d))
       \cup Cl("variables kept", VarsKept(p, d)),
  Then(Cl("each slack serves one constraint", SlackPrivate(p, d))
       \cup Cl("objective does not involve the slack", ObjectiveWithoutSlack(p, d))
       \cup Cl("equalities kept", EqualitiesKept(p, d))
       \cup Cl("kind of slack", SlackKind(p, d, ev.mode)),
  Cl("slack can be chosen exactly at the feasible points",
       /\ Discrete(p) /\ ev.all => \A x \in Points(p) : SlackOK(p, d, x, 1)
       /\ \A n \in 1..Len(ev.pts) : SlackOK(p, d, ev.pts[n], ev.X))
  \cup Cl("decoding returns the original variables",
       \A n \in 1..Len(ev.probes) : ev.probes[n].x = [i \in 1..NVars(p) |-> ev.probes[n].b[OldPos(p, d)[i]]])
  \cup Cl("source unchanged", SameProgram(p, ev.after))))
=============================================================================
