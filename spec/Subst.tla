-------------------------------- MODULE Subst --------------------------------
(* Substitution of variables by constants or by multiples of kept variables. *)
(* sub[i] = [kind, j, f, v]: kind "keep", "const" (value v/F) or "var"       *)
(* (x_i = (f/F) * x_j).  The result is in units of 1/(S*F*F).                *)
EXTENDS QP
CONSTANT F

Kept(sub) == SelectSeq([i \in 1..Len(sub) |-> i], LAMBDA i : sub[i].kind = "keep")
PosOf(kept, i) == CHOOSE k \in 1..Len(kept) : kept[k] = i
\* x_i = (A(i) + B(i) * y_T(i)) / F
AOf(sub, i) == IF sub[i].kind = "const" THEN sub[i].v ELSE 0
BOf(sub, i) == IF sub[i].kind = "keep" THEN F ELSE IF sub[i].kind = "var" THEN sub[i].f ELSE 0
TOf(sub, i) == IF sub[i].kind = "keep" THEN i ELSE IF sub[i].kind = "var" THEN sub[i].j ELSE 0

WellFormedSub(sub) ==
  /\ \A i \in 1..Len(sub) : sub[i].kind = "var" => sub[i].f # 0 /\ sub[i].j # i /\ sub[sub[i].j].kind = "keep"

\* the substituted polynomial const + lin.x + x'quad x, over the kept variables
SubPoly(n, sub, const, lin, quad) ==
  LET kept == Kept(sub) m == Len(kept)
      a == [i \in 1..n |-> AOf(sub, i)] b == [i \in 1..n |-> BOf(sub, i)]
      t == [i \in 1..n |-> IF TOf(sub, i) = 0 THEN 0 ELSE PosOf(kept, TOf(sub, i))]
      Q2(i) == SumSeq([j \in 1..n |-> (quad[i][j] + quad[j][i]) * a[j]])
  IN [const |-> const * F * F + F * Dot(lin, a) + Quad(quad, a),
      lin |-> [k \in 1..m |-> SumSeq([i \in 1..n |-> IF t[i] = k THEN b[i] * (F * lin[i] + Q2(i)) ELSE 0])],
      quad |-> Triu([k \in 1..m |-> [l \in 1..m |->
                 SumSeq([i \in 1..n |-> IF t[i] # k THEN 0
                    ELSE SumSeq([j \in 1..n |-> IF t[j] = l THEN quad[i][j] * b[i] * b[j] ELSE 0])])]])]

\* a constraint as [sense, poly] with poly = lhs - rhs, in units of 1/(S*F*F)
SubCon(n, sub, c) ==
  [sense |-> c.sense,
   poly |-> SubPoly(n, sub, -c.rhs, c.lin, IF "quad" \in DOMAIN c THEN c.quad ELSE ZeroMat(n))]
ConPoly(m, c) ==
  [sense |-> c.sense,
   poly |-> [const |-> -c.rhs, lin |-> c.lin, quad |-> Triu(IF "quad" \in DOMAIN c THEN c.quad ELSE ZeroMat(m))]]
IsConst(sc) == (\A k \in 1..Len(sc.poly.lin) : sc.poly.lin[k] = 0)
               /\ (\A k \in 1..Len(sc.poly.quad) : \A l \in 1..Len(sc.poly.quad) : sc.poly.quad[k][l] = 0)
TrueConst(sc) == Holds(sc.sense, sc.poly.const, 0)

\* bounds of the kept variable j, in units of 1/(S*F*F); f is in units of 1/F, and
\* lb_i / (f/F) is a whole number of units when f divides F*F*F
Lo(p, sub, j) ==
  LET own == IF p.vars[j].lb <= -INF THEN -INF ELSE p.vars[j].lb * F * F
      from(i) == LET v == p.vars[i] f == sub[i].f IN
                 IF f > 0 THEN (IF v.lb <= -INF THEN -INF ELSE (v.lb * F * F * F) \div f)
                 ELSE (IF v.ub >= INF THEN -INF ELSE -((v.ub * F * F * F) \div (-f)))
      all == {own} \cup {from(i) : i \in {k \in 1..Len(sub) : sub[k].kind = "var" /\ sub[k].j = j}}
  IN Max(all)
Hi(p, sub, j) ==
  LET own == IF p.vars[j].ub >= INF THEN INF ELSE p.vars[j].ub * F * F
      from(i) == LET v == p.vars[i] f == sub[i].f IN
                 IF f > 0 THEN (IF v.ub >= INF THEN INF ELSE (v.ub * F * F * F) \div f)
                 ELSE (IF v.lb <= -INF THEN INF ELSE -((v.lb * F * F * F) \div (-f)))
      all == {own} \cup {from(i) : i \in {k \in 1..Len(sub) : sub[k].kind = "var" /\ sub[k].j = j}}
  IN Min(all)

AllCons(p) == p.lc \o p.qc
SubCons(p, sub) == LET cs == AllCons(p) IN [k \in 1..Len(cs) |-> SubCon(NVars(p), sub, cs[k])]

SubStatus(p, sub) ==
  IF \/ \E i \in 1..NVars(p) : sub[i].kind = "const"
           /\ ~(sub[i].v * p.S >= p.vars[i].lb * F /\ sub[i].v * p.S <= p.vars[i].ub * F)
     \/ \E j \in 1..NVars(p) : sub[j].kind = "keep" /\ Lo(p, sub, j) > Hi(p, sub, j)
     \/ \E k \in 1..Len(AllCons(p)) : LET sc == SubCons(p, sub)[k] IN IsConst(sc) /\ ~TrueConst(sc)
  THEN "INFEASIBLE" ELSE "VALID"

\* the full assignment behind y (units 1/X): units 1/(F*X)
FullPoint(sub, y, X) == LET kept == Kept(sub) IN
  [i \in 1..Len(sub) |-> IF sub[i].kind = "const" THEN sub[i].v * X
                         ELSE BOf(sub, i) * y[PosOf(kept, TOf(sub, i))]]
=============================================================================
