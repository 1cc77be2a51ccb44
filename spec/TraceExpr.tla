------------------------------ MODULE TraceExpr ------------------------------
EXTENDS Expr, Judge
XStart(c) == Create(0, 0, <<>>, <<>>)
XAdvance(e, ev) ==
  CASE ev.ev = "create" -> Create(ev.n, ev.const, ev.lin, ev.quad)
    [] ev.ev = "grow" -> Grow(e, ev.k)
    [] ev.ev = "setlin" -> SetLin(e, ev.i + 1, ev.v)
    [] ev.ev = "setquad" -> SetQuad(e, ev.i + 1, ev.j + 1, ev.v)
    [] OTHER -> e
XVerdict(e, ev) ==
  IF ev.ev = "values" THEN
     Cl("linear value", ev.lin = LinAt(e, ev.x))
     \cup Cl("quadratic value", ev.quad = QuadAt(e, ev.x))
     \cup Cl("objective value", ev.obj = ObjAt(e, ev.x, ev.X))
     \cup Cl("constraint values", ev.lcon = LinAt(e, ev.x) /\ ev.qcon = ev.X * LinAt(e, ev.x) + QuadAt(e, ev.x))
     \cup Cl("linear gradient", ev.glin = LinGrad(e))
     \cup Cl("quadratic gradient", ev.gquad = QuadGrad(e, ev.x))
     \cup Cl("objective gradient", ev.gobj = ObjGrad(e, ev.x, ev.X))
  ELSE IF ev.ev = "read" THEN
     Cl("linear coefficients as array", ev.larr = e.lin)
     \cup Cl("linear coefficients as dictionary", LEntries(ev.ldict, e.n) = e.lin /\ LEntries(ev.lnamed, e.n) = e.lin)
     \cup Cl("linear entries", ev.litem = e.lin /\ ev.lnameditem = e.lin)
     \cup Cl("quadratic coefficients as array", Triu(ev.qarr) = e.quad /\ ev.qarr = e.quad)
     \cup Cl("symmetric array", ev.qsym = Sym2(e))
     \cup Cl("quadratic coefficients as dictionary", Entries(ev.qdict, e.n) = e.quad /\ Entries(ev.qnamed, e.n) = e.quad)
     \cup Cl("symmetric dictionary", Entries(ev.qsymdict, e.n) = Sym2(e) /\ Entries(ev.qsymnamed, e.n) = Sym2(e))
     \cup Cl("quadratic entries in either order", \A i, j \in 1..e.n :
             ev.qitem[i][j] = e.quad[IF i <= j THEN i ELSE j][IF i <= j THEN j ELSE i] /\ ev.qnameditem[i][j] = ev.qitem[i][j])
     \cup Cl("constant", ev.const = e.const)
  ELSE IF ev.ev = "refuse" THEN Cl("unsupported formats are refused", ev.exc = "QiskitOptimizationError")
  ELSE {}
=============================================================================
