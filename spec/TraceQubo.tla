---------------------------- MODULE TraceQubo ----------------------------
EXTENDS Converters, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  IF ev.ev = "reject"
  THEN Cl("incompatible problem rejected", ev.exc = "QiskitOptimizationError")
       \cup Cl("report names an incompatibility", ev.msg # "" /\ ~ev.compatible)
  ELSE
  LET p == ev.p d == ev.d dec == ev.dec IN
  Then(Cl("unconstrained binary program of the same sense",
          AllBinary(d) /\ d.lc = <<>> /\ d.qc = <<>> /\ d.sense = p.sense /\ d.status = "VALID")
       \cup Cl("report is empty", ev.msg = "" /\ ev.compatible)
       \cup Cl("decoding has the original variables", Len(dec.cols) = NVars(d) /\ Len(dec.base) = NVars(p) /\ ev.lens),
  Cl("optima decode to optimal feasible assignments of equal value", ev.small /\ ev.dominant => QuboOK(p, d, dec))
  \cup Cl("no assignment looks better than its decoding", ev.small => NeverBetter(p, d, dec))
  \cup Cl("given factor is used", ev.user # 0 => ev.penalty = ev.user)
  \cup Cl("every assignment decodes within the bounds", ev.small => \A b \in AllBits(NVars(d)) :
            \A i \in 1..NVars(p) : LET x == DecodeAt(dec, b) IN BoundHoldsX(p, p.vars[i], x[i], 1))
  \cup Cl("decoding is the recorded affine map", \A n \in 1..Len(ev.probes) : ev.probes[n].x = DecodeAt(dec, ev.probes[n].b))
  \cup Cl("source unchanged", SameProgram(p, ev.after)))
=============================================================================
