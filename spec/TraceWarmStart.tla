--------------------------- MODULE TraceWarmStart ---------------------------
EXTENDS WarmStart, Judge
XStart(c) == [runs |-> 0]
XAdvance(s, ev) == IF ev.ev = "run" THEN [runs |-> s.runs + 1] ELSE s
Pre(ev) == LET d == ev.d g == ev.given IN
  Cl("pre-solver gets the converted problem, relaxed if asked for",
     /\ NVars(g) = NVars(d) /\ SameObjective(g, d) /\ SameCons(g, d)
     /\ \A i \in 1..NVars(d) : /\ g.vars[i].name = d.vars[i].name /\ g.vars[i].lb = d.vars[i].lb /\ g.vars[i].ub = d.vars[i].ub
                               /\ g.vars[i].type = IF ev.relax THEN "C" ELSE d.vars[i].type)
RunV(s, ev) ==
  Cl("one run per used pre-solution", s.runs < Min2(ev.asked, Len(ev.pre)))
  \cup (IF s.runs < Len(ev.pre) THEN
        LET x == ev.pre[s.runs + 1] IN
        Cl("initial state encodes the clipped pre-solution", Prepared(x, ev.eps, ev.ones))
        \cup Cl("mixer keeps the initial state and turns its excitations", Mixes(Len(x), ev.off, ev.turns))
        ELSE {})
  \cup Cl("run minimises the converted problem", \A k \in 1..Len(ev.energy) :
          ev.energy[k] - ev.energy[1] = ev.d.sense * (Obj(ev.d, BitsLE(k - 1, NVars(ev.d))) - Obj(ev.d, Zeros(NVars(ev.d)))))
EndV(s, ev) ==
  LET p == ev.p d == ev.d dec == ev.dec IN
  Cl("one run per used pre-solution", s.runs = Min2(ev.asked, Len(ev.pre)) /\ s.runs = Len(ev.states))
  \cup (IF s.runs = 1 THEN
          Cl("samples are the decoded raw samples", SamplesOK(p, dec, ev.states[1], ev.samples))
          \cup Cl("solution is the decoding of the best raw sample",
                  SolutionOK(p, d, dec, [i \in 1..Len(ev.states[1]) |-> [x |-> ev.states[1][i].x, fval |-> Obj(d, ev.states[1][i].x)]], ev.x))
        ELSE
          Cl("samples ordered feasible first, better first", Sorted(p, ev.samples) /\ Labelled(p, ev.samples))
          \cup (IF ev.custom THEN Cl("samples are those of the aggregation", Distinct(ev.samples) /\ Xs(ev.samples) = Xs(ev.agg)
                                     /\ \A i \in 1..Len(ev.agg) : Near(ProbAt(ev.samples, ev.agg[i].x), ev.agg[i].prob, 2))
                ELSE Cl("samples are the mean over the runs", MeanOK(p, dec, ev.states, ev.samples)))
          \cup Cl("solution is the best sample", ev.x = ev.samples[1].x))
  \cup Cl("value and status are those of the original problem", ResultOK(p, ev))
XVerdict(s, ev) ==
  CASE ev.ev = "pre" -> Pre(ev)
    [] ev.ev = "run" -> RunV(s, ev)
    [] ev.ev = "end" -> EndV(s, ev)
    [] ev.ev = "refused" -> Cl("a failing pre-solver is reported as an error and nothing is run", ev.raised /\ s.runs = 0)
=============================================================================
