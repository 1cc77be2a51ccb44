---------------------------- MODULE TraceSamples ----------------------------
EXTENDS Samples, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  IF ev.ev = "nostate" THEN Cl("no eigenstate means failure without a solution", ev.failed /\ ev.nox)
  ELSE
  LET p == ev.p d == ev.d dec == ev.dec raw == ev.raw smp == ev.samples IN
  Then(Cl("one raw sample per sampled basis state, bits in variable order", Distinct(raw) /\ Xs(raw) = Xs(ev.state)),
  Cl("raw samples carry probability and objective of their state",
     \A i \in 1..Len(raw) : Near(raw[i].prob, ProbAt(ev.state, raw[i].x), 2) /\ raw[i].fval = Obj(d, raw[i].x))
  \cup Cl("raw samples ordered from best to worst", SortedByValue(d, raw))
  \cup Cl("samples are the decoded raw samples, merged", Distinct(smp) /\ Xs(smp) = DecodedXs(dec, raw))
  \cup Cl("samples ordered feasible first, better first", Sorted(p, smp))
  \cup Cl("samples carry probability, value and feasibility", SamplesOK(p, dec, raw, smp))
  \cup Cl("solution is the decoding of the best raw sample", SolutionOK(p, d, dec, raw, ev.x))
  \cup Cl("result carries value and feasibility", ResultOK(p, ev)))
=============================================================================
