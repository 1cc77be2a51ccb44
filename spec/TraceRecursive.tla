--------------------------- MODULE TraceRecursive ---------------------------
EXTENDS Recursive, Judge
\* state: converted program, current program, replacements so far
XStart(c) == [d0 |-> c.d, p |-> c.d, reps |-> <<>>]
XAdvance(s, ev) == IF ev.ev = "round" THEN [s EXCEPT !.p = ev.next, !.reps = Append(s.reps, ev.rep)] ELSE s
XVerdict(s, ev) ==
  CASE ev.ev = "round" ->
         Then(Cl("a round happens only above the minimum number of variables", NVars(s.p) > ev.min)
              \cup Cl("the round's problem is the current one", SameProgram(ev.p, s.p))
              \cup Cl("one replacement is recorded", ev.found),
         Then(Cl("one variable is replaced, the rest is equivalent", RoundOK(s.p, ev.rep, ev.next)),
              Cl("strongest correlation decides", ChoiceOK(s.p, ev.samples, ev.rep))))
    [] ev.ev = "final" ->
         Cl("elimination stops at the minimum number of variables", NVars(s.p) <= ev.min)
         \cup Cl("the final optimizer gets the remaining problem", SameProgram(ev.p, s.p))
         \cup Cl("remaining problem is unconstrained and valid", s.p.status = "VALID")
    [] ev.ev = "result" ->
         LET O == {x \in AllBits(NVars(s.d0)) : Obeys(s.d0, x, s.reps)}
             x0 == Rebuilt(s.d0, s.reps, s.p, ev.y) IN
         Then(Cl("all rounds were performed", NVars(s.p) <= ev.min),
         Cl("assignment obeys the replacements and the final answer",
            IF ev.known THEN ev.x = DecodeAt(ev.dec, x0)
            ELSE \E x \in O : ev.x = DecodeAt(ev.dec, x) /\ Obj(s.d0, x) = BestOf(s.d0, O))
         \cup Cl("value and status are those of the original problem", ev.fval = Obj(ev.src, ev.x) /\ ev.ok = Feasible(ev.src, ev.x))
         \cup Cl("replacements describe the rounds", Range1(ev.reps) = Range1(s.reps) /\ Len(ev.reps) = Len(s.reps))
         \cup Cl("history describes the rounds",
                 /\ ev.histlen = (IF ev.history = "ALL" THEN Len(s.reps) ELSE 0)
                 /\ ev.histmatch
                 /\ ev.histlast = (ev.history # "NO")))
=============================================================================
