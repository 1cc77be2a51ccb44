----------------------------- MODULE TraceCuts -----------------------------
EXTENDS Cuts, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  CASE ev.ev = "failed" -> Cl("an unsolvable relaxation means failure without a solution", ev.failed /\ ev.nox /\ ev.samples = 0)
    [] ev.ev = "cuts" ->
  LET p == ev.p w == ev.w smp == ev.samples n == NVars(p) IN
  Then(Cl("at least one cut and at most the requested number", Len(smp) >= 1 /\ Len(smp) <= ev.num)
       \cup Cl("cuts are zero-one assignments", \A i \in 1..Len(smp) : Len(smp[i].x) = n /\ \A k \in 1..n : smp[i].x[k] \in {0, 1}),
  Cl("cuts carry their objective value and success", \A i \in 1..Len(smp) : smp[i].fval = Obj(p, smp[i].x) /\ smp[i].ok)
  \cup Cl("value is the weight of the cut", \A i \in 1..Len(smp) : smp[i].fval = CutVal(w, smp[i].x))
  \cup Cl("cuts ordered by value", ev.sort => \A i \in 1..(Len(smp) - 1) : smp[i].fval >= smp[i + 1].fval)
  \cup Cl("no cut repeated", ev.unique => \A i, j \in 1..Len(smp) : i # j => smp[i].x # smp[j].x /\ smp[i].x # Flip(smp[j].x))
  \cup Cl("nothing but repetitions left out", ev.unique =>
       /\ \A k \in 1..Len(ev.all) : \E i \in 1..Len(smp) : smp[i].x = ev.all[k] \/ smp[i].x = Flip(ev.all[k])
       /\ \A i \in 1..Len(smp) : \E k \in 1..Len(ev.all) : smp[i].x = ev.all[k] \/ Flip(smp[i].x) = ev.all[k])
  \cup Cl("requested number of cuts", ~ev.unique => Len(smp) = ev.num)
  \cup Cl("probabilities are uniform", \A i \in 1..Len(smp) : Near(Len(smp) * smp[i].prob, 1000000, Len(smp)))
  \cup Cl("solution is the first cut", ev.x = smp[1].x /\ ev.fval = smp[1].fval /\ ev.ok)
  \cup Cl("relaxation is a correlation matrix", Correlation(ev.chi, n, 5))
  \cup Cl("relaxation bounds every cut", Upper(w, ev.chi, 20))
  \cup Cl("bipartite graphs are cut completely", ev.sort /\ ev.num >= 8 /\ Bipartite(w) => ev.fval = Total(w))
  \cup Cl("same seed, same cuts", ev.again))
=============================================================================
