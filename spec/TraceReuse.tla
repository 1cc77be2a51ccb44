---------------------------- MODULE TraceReuse ----------------------------
EXTENDS Reuse, Judge
XStart(c) == <<>>
XAdvance(s, ev) == IF ev.ev = "call" THEN Keep(s, ev.out) ELSE s
XVerdict(s, ev) ==
  CASE ev.ev = "call" ->
         Cl("same result as a fresh object", Fresh(ev.out, ev.fresh))
         \cup Cl("programs that were given are unchanged", Stable(ev.given, ev.now))
         \cup Cl("earlier results are unchanged", Stable(s, ev.earlier))
    [] ev.ev = "edit" ->
         Cl("editing what was returned does not reach the given program", Stable(ev.given, ev.now))
         \cup Cl("editing what was returned does not reach later calls", Fresh(ev.again, ev.first))
=============================================================================
