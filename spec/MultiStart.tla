----------------------------- MODULE MultiStart -----------------------------
(* Repeated local search: trial k starts somewhere, the local solver answers *)
(* with a point; the best answer in the problem's sense is kept.             *)
(* Points are in units of 1/2, p has scale 2.                                *)
EXTENDS QP
MInit == [k |-> 0, best |-> <<>>]          \* best: set of indices of the best trials so far, with their value
MTrial(p, s, x) ==
  LET v == p.sense * ObjX(p, x, 2) IN
  IF s.best = <<>> \/ v < s.best.v THEN [k |-> s.k + 1, best |-> [v |-> v, who |-> {s.k + 1}]]
  ELSE IF v = s.best.v THEN [k |-> s.k + 1, best |-> [v |-> v, who |-> s.best.who \cup {s.k + 1}]]
  ELSE [s EXCEPT !.k = @ + 1]
\* start points x0 in units of 1/1000, rounded
StartOK(p, s, x0, clip) ==
  IF s.k = 0 THEN x0 = Zeros(NVars(p))
  ELSE \A i \in 1..NVars(p) : LET v == p.vars[i] IN
         /\ v.lb > -INF => x0[i] >= 500 * v.lb - 1
         /\ v.ub < INF => x0[i] <= 500 * v.ub + 1
         /\ (v.lb <= -INF /\ v.ub > -2 * clip) => x0[i] >= -1000 * clip - 1
         /\ (v.ub >= INF /\ v.lb < 2 * clip) => x0[i] <= 1000 * clip + 1
\* a family of recorded functions at sample points describes the constraints
\*   pts: sequence of points; funs: sequence of [eq, vals] (vals at the points)
FunOK(f, m) == IF f.eq THEN f.vals[m] = 0 ELSE f.vals[m] >= 0
BoundCons(p) == {[kind |-> "lb", i |-> i] : i \in {j \in 1..NVars(p) : p.vars[j].lb > -INF}}
                \cup {[kind |-> "ub", i |-> i] : i \in {j \in 1..NVars(p) : p.vars[j].ub < INF}}
RealCons(p) == {[kind |-> "lc", i |-> i] : i \in 1..Len(p.lc)} \cup {[kind |-> "qc", i |-> i] : i \in 1..Len(p.qc)}
Sat(p, c, x) == CASE c.kind = "lb" -> p.vars[c.i].lb <= x[c.i]
                  [] c.kind = "ub" -> x[c.i] <= p.vars[c.i].ub
                  [] c.kind = "lc" -> ConHoldsX(p.lc[c.i], x, 2)
                  [] c.kind = "qc" -> ConHoldsX(p.qc[c.i], x, 2)
Describes(p, cons, pts, funs) ==
  LET M == 1..Len(pts)
      sat == [c \in cons |-> {m \in M : Sat(p, c, pts[m])}]
      ok == [k \in 1..Len(funs) |-> {m \in M : FunOK(funs[k], m)}]
      G(c) == {k \in 1..Len(funs) : sat[c] \subseteq ok[k]}
  IN /\ \A k \in 1..Len(funs) : \E c \in cons : k \in G(c)
     /\ \A c \in cons : \A m \in M \ sat[c] : \E k \in G(c) : m \notin ok[k]
Gradient(p, x, i) == 2 * p.lin[i] + SumSeq([j \in 1..NVars(p) |-> (p.quad[i][j] + p.quad[j][i]) * x[j]])   \* units 1/4
=============================================================================
