---------------------------- MODULE TraceExchange ----------------------------
EXTENDS Exchange, Judge
XStart(c) == c.p
XAdvance(p, ev) == p
\* the same program with its variables listed in another order: perm[i] is the
\* position in q of the i-th variable of p
Reordered(p, perm) ==
  LET n == NVars(p)
      V(v) == [i \in 1..n |-> v[perm[i]]]
      M(m) == [i \in 1..n |-> [j \in 1..n |-> m[perm[i]][perm[j]]]]
  IN [p EXCEPT !.vars = V(@), !.lin = V(@), !.quad = M(Triu(@)),
        !.lc = [k \in 1..Len(@) |-> [@[k] EXCEPT !.lin = V(@)]],
        !.qc = [k \in 1..Len(@) |-> [@[k] EXCEPT !.lin = V(@), !.quad = M(Triu(@))]]]
PermOf(p, q) == [i \in 1..NVars(p) |-> CHOOSE j \in 1..NVars(q) : q.vars[j].name = p.vars[i].name]
SameNames(p, q) == {p.vars[i].name : i \in 1..NVars(p)} = {q.vars[i].name : i \in 1..NVars(q)} /\ NVars(p) = NVars(q)

Compare(p, d) ==
   Cl("variables", SameVars(p, d)) \cup Cl("objective", SameObjective(p, d))
   \cup Cl("constraints", SameCons(p, d)) \cup Cl("program name", p.name = d.name)
XVerdict(p, ev) ==
  CASE ev.ev = "docplex" -> Compare(Exported(p), ev.dst) \cup Cl("original unchanged", SameProgram(p, ev.after))
    [] ev.ev = "hollow" ->
         (IF Hopeless(p) THEN Cl("a constraint nothing satisfies is not dropped", ev.exc # "")
          ELSE Then(Cl("a satisfiable program is exported", ev.exc = ""), Compare(Exported(p), ev.dst)))
         \cup Cl("original unchanged", SameProgram(p, ev.after))
    [] ev.ev = "lp" -> Then(Cl("variables", SameNames(p, ev.dst)),
                            Compare(Exported(p), Reordered(ev.dst, PermOf(p, ev.dst))))
                       \cup Cl("original unchanged", SameProgram(p, ev.after))
    [] ev.ev = "import" ->
         LET d == ev.dst n == NVars(p) IN
         Then(Cl("variables", SameVars(p, d)),
         Cl("objective", SameObjective(p, d))
         \cup Cl("constraints",
                /\ Len(d.lc) = Len(ev.lin) /\ Len(d.qc) = Len(ev.quad)
                /\ \A k \in 1..Len(ev.lin) : Equivalent(Moved(ev.lin[k]), AsQuad(d.lc[k], n))
                /\ \A k \in 1..Len(ev.quad) : Equivalent(Moved(ev.quad[k]), AsQuad(d.qc[k], n)))
         \cup Cl("program name", d.name = p.name))
    [] ev.ev = "reject" -> Cl("unsupported model rejected", ev.exc = "QiskitOptimizationError")
=============================================================================
