---------------------------- MODULE TraceApps ----------------------------
EXTENDS Apps, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
PermPoint(n, y) == [a \in 1..(n * n) |-> IF y[((a - 1) % n) + 1] = ((a - 1) \div n) + 1 THEN 1 ELSE 0]
Pts(app, t, ev) == LET n == AppVars(app, t) IN
   (IF n <= 9 \/ ev.all THEN AllBits(n) ELSE IF app = "tsp" /\ t.n <= 5 THEN {PermPoint(t.n, y) : y \in Perms(t.n)} ELSE {}) \cup Range1(ev.pts)
XVerdict(s, ev) ==
  CASE ev.ev = "qp" ->
         LET n == AppVars(ev.app, ev.t) IN
         Then(Cl("one binary variable per choice", NVars(ev.p) = n /\ AllBinary(ev.p) /\ ev.p.status = "VALID"
                   /\ \A i \in 1..n : ev.p.vars[i].lb = 0 /\ ev.p.vars[i].ub = ev.p.S),
         Cl("optimisation sense", SenseOK(ev.app, ev.t, ev.p))
         \cup Cl("feasible assignments are the objects, objective is their value", Encodes(ev.app, ev.t, ev.p, Pts(ev.app, ev.t, ev))))
    [] ev.ev = "interp" ->
         IF ev.app = "vrp" /\ ~AppObject(ev.app, ev.t, ev.x) THEN {}
         ELSE Cl("interpretation is the denoted object", Denotes(ev.app, ev.t, ev.x, ev.out))
    [] ev.ev = "tourvalue" -> Cl("tour length", ev.v = TourLen(ev.W, ev.y))
    [] ev.ev = "reject" -> Cl("unsupported result type rejected", ev.exc = "TypeError")
    [] ev.ev = "same" -> Cl("the given data are unchanged", ev.before = ev.after)
=============================================================================
