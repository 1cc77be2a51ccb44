----------------------------- MODULE TraceIsing -----------------------------
EXTENDS Ising, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  CASE ev.ev = "to" ->
        LET p == ev.p n == NVars(p) IN
        Then(Cl("one qubit per variable", ev.qubits = n /\ Len(ev.diag) = Pow2(n)),
        Cl("operator is diagonal and real", ev.diagonal)
        \cup Cl("operator value plus offset is the objective on every assignment",
             \A v \in 0..(Pow2(n) - 1) : ev.diag[v + 1] + ev.offset = 4 * p.sense * Obj(p, BitsLE(v, n)))
        \cup Cl("original unchanged", SameProgram(p, ev.after)))
    [] ev.ev = "from" ->
        LET p == ev.dst n == ev.n IN
        Then(Cl("one binary variable per qubit", NVars(p) = n /\ AllBinary(p)),
        Cl("unconstrained minimisation", p.sense = 1 /\ p.lc = <<>> /\ p.qc = <<>> /\ p.status = "VALID")
        \cup Cl("objective is the operator value plus the offset on every assignment",
             \A v \in 0..(Pow2(n) - 1) : Obj(p, BitsLE(v, n)) = TermsAt(ev.terms, BitsLE(v, n)) + ev.offset)
        \cup Cl("requested linear form", ev.linear => \A i \in 1..n : p.quad[i][i] = 0))
    [] ev.ev = "round" ->   \* to_ising followed by from_ising
        LET p == ev.p d == ev.dst n == NVars(p) IN
        Then(Cl("one binary variable per qubit", NVars(d) = n /\ AllBinary(d)),
        Cl("round trip keeps the objective", \A v \in 0..(Pow2(n) - 1) : Obj(d, BitsLE(v, n)) = 4 * p.sense * Obj(p, BitsLE(v, n))))
    [] ev.ev = "reject" -> Cl("unsupported input rejected", ev.exc = ev.want)
=============================================================================
