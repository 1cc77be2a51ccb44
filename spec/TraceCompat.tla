---------------------------- MODULE TraceCompat ----------------------------
EXTENDS Compat, Judge
XStart(c) == GInit
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  CASE ev.ev = "report" ->
         LET ok == Accepts(ev.kind, ev.p) IN
         Cl("report is empty exactly for supported problems", ev.reports => (ev.empty <=> ok))
         \cup Cl("yes-or-no form agrees with the report", ev.reports => (ev.compatible <=> ev.empty))
         \cup Cl("unsupported problems are refused with the library's error", GStep(ev.kind, ev.p, s) = "refused" => ev.outcome = "QiskitOptimizationError")
         \cup Cl("nothing is solved before the refusal", GStep(ev.kind, ev.p, s) = "refused" => ev.calls = 0)
         \cup Cl("supported problems are not refused", GStep(ev.kind, ev.p, s) = "running" => ev.outcome \in {"ok", "notrun"})
         \cup Cl("the problem is left as it was", SameProgram(ev.p, ev.after))
    [] ev.ev = "setting" ->
         Cl("invalid settings are refused, valid ones are not", ValidSetting(ev.what, ev.v) <=> ev.raised = "")
         \cup Cl("refused with the documented error", ~ValidSetting(ev.what, ev.v) => ev.raised = ev.error)
    [] ev.ev = "exact" ->
         Cl("a problem without solution raises the library's error and no other does",
            IF FeasPoints(ev.p) = {} THEN ev.outcome = "QiskitOptimizationError" ELSE ev.outcome = "ok")
=============================================================================
