---------------------------- MODULE TracePenalty ----------------------------
EXTENDS Converters, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
Free(p) == {i \in 1..NVars(p) : p.vars[i].type # "B"}
XVerdict(s, ev) ==
  IF ev.ev = "reject" THEN Cl("unsupported input rejected", ev.exc = "QiskitOptimizationError")
  ELSE
  LET p == ev.p d == ev.d P == ev.penalty IN
  Then(Cl("same variables, same sense, no constraints",
          d.vars = p.vars /\ d.sense = p.sense /\ d.lc = <<>> /\ d.qc = <<>> /\ d.status = "VALID"),
  Cl("objective is the original one worsened by the penalty",
     \A x \in ProbePoints(NVars(p), Free(p)) : Obj(ev.fine, x) = Penalised(p, P, x))
  \cup Cl("given factor is used", ev.user # 0 => P = ev.user)
  \cup Cl("automatic factor makes the optima optimal and feasible", ev.integral => P > 0 /\ Dominates(p, P))
  \cup Cl("decoding is the identity", \A n \in 1..Len(ev.probes) : ev.probes[n].x = ev.probes[n].b)
  \cup Cl("decoding rejects other lengths", ev.wronglen = "QiskitOptimizationError")
  \cup Cl("source unchanged", SameProgram(p, ev.after)))
=============================================================================
