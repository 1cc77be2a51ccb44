----------------------------- MODULE TraceSubst -----------------------------
EXTENDS Subst, Judge
XStart(c) == c.p
XAdvance(p, ev) == p
\* multiset equality of sequences
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
XVerdict(p, ev) ==
  IF ev.ev = "reject" THEN Cl("malformed substitution rejected", ev.exc = "QiskitOptimizationError")
                           \cup Cl("original unchanged", SameProgram(p, ev.after))
  ELSE
  LET d == ev.dst
      kept == Kept(ev.sub)
      m == Len(kept)
      obj == SubPoly(NVars(p), ev.sub, p.const, p.lin, p.quad)
      want == SelectSeq(SubCons(p, ev.sub), LAMBDA sc : ~IsConst(sc))
      have == [k \in 1..Len(AllCons(d)) |-> ConPoly(m, AllCons(d)[k])]
      status == SubStatus(p, ev.sub)
  IN Then(Cl("kept variables in order", Len(d.vars) = m /\ \A k \in 1..m :
            d.vars[k].name = p.vars[kept[k]].name /\ d.vars[k].type = p.vars[kept[k]].type),
     Cl("status", d.status = status)
     \cup Cl("bounds", status = "VALID" => \A k \in 1..m : d.vars[k].lb = Lo(p, ev.sub, kept[k]) /\ d.vars[k].ub = Hi(p, ev.sub, kept[k]))
     \cup Cl("objective", d.sense = p.sense /\ d.const = obj.const /\ d.lin = obj.lin /\ Triu(d.quad) = obj.quad)
     \cup Cl("constraints", SameBag(want, SelectSeq(have, LAMBDA sc : ~IsConst(sc))))
     \cup Cl("no false leftover", status = "VALID" => \A k \in 1..Len(have) : IsConst(have[k]) => TrueConst(have[k]))
     \cup Cl("linear constraint names", status = "VALID" => \A k \in 1..Len(p.lc) :
              ~IsConst(SubCons(p, ev.sub)[k]) => \E i \in 1..Len(d.lc) :
                  d.lc[i].name = p.lc[k].name /\ have[i] = SubCons(p, ev.sub)[k])
     \cup Cl("original unchanged", SameProgram(p, ev.after)))
=============================================================================
