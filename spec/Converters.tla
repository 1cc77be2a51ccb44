----------------------------- MODULE Converters -----------------------------
(* The conversion pipeline as relations between a source program, a          *)
(* converted program and the decoding of its assignments, together with      *)
(* reference conversions that satisfy them (see MCConverters).               *)
(* A decoding is affine: base + sum_k b_k * col[k], one entry per source     *)
(* variable.                                                                 *)
EXTENDS QP

\* ---------------------------------------------------------------- decodings
DecodeAt(dec, b) == [i \in 1..Len(dec.base) |->
    dec.base[i] + SumSeq([k \in 1..Len(dec.cols) |-> IF b[k] = 0 THEN 0 ELSE b[k] * dec.cols[k][i]])]

\* points that determine a polynomial of degree two over m coordinates of which
\* the ones in free may take any value and the others only 0 and 1
ProbePoints(m, free) ==
  {Zeros(m)} \cup {Unit(m, k) : k \in 1..m}
  \cup {[Unit(m, k) EXCEPT ![k] = -1] : k \in free}
  \cup {[i \in 1..m |-> IF i = k \/ i = l THEN 1 ELSE 0] : k, l \in 1..m}

SortSeq2(s) == SortSeq(s, LAMBDA a, b : a < b)
\* the subset sums of the non-negative weights w are exactly 0..r
Covers(w, r) == LET s == SortSeq2(w) IN
  /\ SumSeq(s) = r /\ \A k \in 1..Len(s) : s[k] >= 0
  /\ \A k \in 1..Len(s) : s[k] <= 1 + SumSeq(SubSeq(s, 1, k - 1))

\* -------------------------------------------------- integer to binary (C07)
IntVars(p) == {i \in 1..NVars(p) : p.vars[i].type = "I"}
\* the source variable that the k-th new variable contributes to; 0 if it contributes to none
OwnerOf(p, dec) == [k \in 1..Len(dec.cols) |->
   LET c == {i \in 1..NVars(p) : dec.cols[k][i] # 0} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE]
OwnedBy(dec, owner, i) == SelectSeq([k \in 1..Len(dec.cols) |-> k], LAMBDA k : owner[k] = i)
EncodingOK(p, d, dec) ==
  LET owner == OwnerOf(p, dec) IN
  /\ \A k \in 1..NVars(d) : \A i \in 1..NVars(p) : dec.cols[k][i] # 0 => i = owner[k]
  /\ \A k \in 1..NVars(d) : owner[k] = 0 => d.vars[k].type = "B"
  /\ \A i \in IntVars(p) :
        LET ks == OwnedBy(dec, owner, i) IN
        /\ dec.base[i] * p.S = p.vars[i].lb
        /\ \A n \in 1..Len(ks) : d.vars[ks[n]].type = "B"
        /\ Covers([n \in 1..Len(ks) |-> dec.cols[ks[n]][i]], (p.vars[i].ub - p.vars[i].lb) \div p.S)
OthersKept(p, d, dec) ==
  LET owner == OwnerOf(p, dec) IN
  \A i \in 1..NVars(p) : p.vars[i].type # "I" =>
     LET ks == OwnedBy(dec, owner, i) IN
     Len(ks) = 1 /\ d.vars[ks[1]] = p.vars[i] /\ dec.base[i] = 0 /\ dec.cols[ks[1]][i] = 1
PolyKept(p, d, dec) ==
  LET free == {k \in 1..NVars(d) : d.vars[k].type = "C"}
      pts == ProbePoints(NVars(d), free)
  IN /\ d.sense = p.sense
     /\ \A b \in pts : Obj(d, b) = Obj(p, DecodeAt(dec, b))
ConsKept(p, d, dec) ==
  LET free == {k \in 1..NVars(d) : d.vars[k].type = "C"}
      pts == ProbePoints(NVars(d), free)
      Same(a, b) == a.name = b.name /\ a.sense = b.sense
                    /\ \A x \in pts : Lhs(b, x) - b.rhs = Lhs(a, DecodeAt(dec, x)) - a.rhs
  IN /\ Len(d.lc) = Len(p.lc) /\ Len(d.qc) = Len(p.qc)
     /\ \A k \in 1..Len(p.lc) : Same(p.lc[k], d.lc[k])
     /\ \A k \in 1..Len(p.qc) : Same(p.qc[k], d.qc[k])

\* ------------------------------------------- inequality to equality (C08)
\* new variables of d are those not named in p
NewVars(p, d) == {k \in 1..NVars(d) : \A i \in 1..NVars(p) : p.vars[i].name # d.vars[k].name}
OldPos(p, d) == [i \in 1..NVars(p) |-> CHOOSE k \in 1..NVars(d) : d.vars[k].name = p.vars[i].name]
VarsKept(p, d) == \A i \in 1..NVars(p) : \E k \in 1..NVars(d) : d.vars[k] = p.vars[i]
SlackOf(p, d, c) == {k \in NewVars(p, d) : c.lin[k] # 0}
\* x in units of 1/X; the left-hand side of the converted constraint without slack
OldLhsX(p, d, c, x, X) ==
  LET pos == OldPos(p, d) n == NVars(p) IN
  X * SumSeq([i \in 1..n |-> c.lin[pos[i]] * x[i]])
  + (IF "quad" \in DOMAIN c
     THEN SumSeq([i \in 1..n |-> SumSeq([j \in 1..n |-> c.quad[pos[i]][pos[j]] * x[i] * x[j]])]) ELSE 0)
\* some slack value within its bounds satisfies the converted equality at x
SlackFits(p, d, c, x, X) ==
  LET need == c.rhs * X * X - OldLhsX(p, d, c, x, X)     \* units 1/(S*X*X)
      ks == SlackOf(p, d, c)
  IN IF ks = {} THEN need = 0
     ELSE LET k == CHOOSE k \in ks : TRUE
              v == d.vars[k]
              a == c.lin[k]                                \* units 1/S
              sneed == IF a > 0 THEN need ELSE -need      \* slack = sneed / |a| in units 1/(X*X)
          IN /\ Cardinality(ks) = 1
             /\ v.lb > -INF => v.lb * Abs(a) * X * X <= sneed * d.S
             /\ v.ub < INF => sneed * d.S <= v.ub * Abs(a) * X * X
             /\ v.type = "I" => sneed % (Abs(a) * X * X) = 0
SlackOK(p, d, x, X) ==
  /\ \A k \in 1..Len(p.lc) : ConHoldsX(p.lc[k], x, X) <=> SlackFits(p, d, d.lc[k], x, X)
  /\ \A k \in 1..Len(p.qc) : ConHoldsX(p.qc[k], x, X) <=> SlackFits(p, d, d.qc[k], x, X)
ObjectiveWithoutSlack(p, d) ==
  LET pos == OldPos(p, d) n == NVars(p) new == NewVars(p, d) t == Triu(d.quad) IN
  /\ d.sense = p.sense /\ d.const = p.const
  /\ \A i \in 1..n : d.lin[pos[i]] = p.lin[i]
  /\ \A k \in new : d.lin[k] = 0
  /\ \A k \in new : \A l \in 1..NVars(d) : d.quad[k][l] = 0 /\ d.quad[l][k] = 0
  /\ \A i, j \in 1..n : i <= j => (IF i = j THEN d.quad[pos[i]][pos[i]] ELSE d.quad[pos[i]][pos[j]] + d.quad[pos[j]][pos[i]]) = Triu(p.quad)[i][j]
\* each slack variable serves one constraint only, linearly
SlackPrivate(p, d) ==
  \A k \in NewVars(p, d) :
     /\ Cardinality({c \in 1..Len(d.lc) : d.lc[c].lin[k] # 0}) + Cardinality({c \in 1..Len(d.qc) : d.qc[c].lin[k] # 0}) = 1
     /\ \A c \in 1..Len(d.qc) : \A l \in 1..NVars(d) : d.qc[c].quad[k][l] = 0 /\ d.qc[c].quad[l][k] = 0
\* integer slack only where all quantities of the constraint are integral
SlackKind(p, d, mode) ==
  LET pos == OldPos(p, d)
      Whole(v) == v % p.S = 0
      Ok(c) == /\ \A i \in 1..NVars(p) : Whole(c.lin[pos[i]]) /\ (c.lin[pos[i]] # 0 => p.vars[i].type # "C")
               /\ "quad" \in DOMAIN c =>
                    \A i, j \in 1..NVars(p) : /\ Whole(c.quad[pos[i]][pos[j]])
                                              /\ c.quad[pos[i]][pos[j]] # 0 => p.vars[i].type # "C" /\ p.vars[j].type # "C"
      One(c) == \A k \in SlackOf(p, d, c) :
                   /\ d.vars[k].type \in {"I", "C"}
                   /\ d.vars[k].type = "I" => Ok(c)
                   /\ mode = "integer" => d.vars[k].type = "I"
                   /\ mode = "continuous" => d.vars[k].type = "C"
  IN (\A k \in 1..Len(d.lc) : One(d.lc[k])) /\ (\A k \in 1..Len(d.qc) : One(d.qc[k]))
AllEqualities(p, d) ==
  /\ Len(d.lc) = Len(p.lc) /\ Len(d.qc) = Len(p.qc)
  /\ \A k \in 1..Len(d.lc) : d.lc[k].sense = "EQ" /\ d.lc[k].name = p.lc[k].name
  /\ \A k \in 1..Len(d.qc) : d.qc[k].sense = "EQ" /\ d.qc[k].name = p.qc[k].name
EqualitiesKept(p, d) ==
  /\ \A k \in 1..Len(p.lc) : p.lc[k].sense = "EQ" => SlackOf(p, d, d.lc[k]) = {} /\ d.lc[k].rhs = p.lc[k].rhs
  /\ \A k \in 1..Len(p.qc) : p.qc[k].sense = "EQ" => SlackOf(p, d, d.qc[k]) = {} /\ d.qc[k].rhs = p.qc[k].rhs

\* -------------------------------------------------------- penalty (C09)
\* residual of an equality in units 1/S; P in units 1/S; penalised value in 1/S^3
Residual(c, x) == Lhs(c, x) - c.rhs
PenaltySum(p, x) == SumSeq([k \in 1..Len(p.lc) |-> Residual(p.lc[k], x) * Residual(p.lc[k], x)])
Penalised(p, P, x) == Obj(p, x) * p.S * p.S + p.sense * P * PenaltySum(p, x)
\* every best assignment of the penalised objective is a best feasible one
Dominates(p, P) ==
  LET pts == Points(p)
      feas == {x \in pts : PenaltySum(p, x) = 0}
      pv == [x \in pts |-> p.sense * Penalised(p, P, x)]
      ov == [x \in feas |-> p.sense * Obj(p, x)]
  IN feas # {} =>
       LET pm == Min({pv[x] : x \in pts}) om == Min({ov[x] : x \in feas}) IN
       {x \in pts : pv[x] = pm} = {x \in feas : ov[x] = om}

\* ----------------------------------------------------------- QUBO (C10)
\* the converted program attains its optimum only at encodings of optimal
\* feasible assignments of the source, and at their objective value
QuboOK(p, d, dec) ==
  LET bs == AllBits(NVars(d))
      dv == [b \in bs |-> d.sense * Obj(d, b)]
      best == Min({dv[b] : b \in bs})
      feas == FeasPoints(p)
  IN feas # {} =>
       LET opt == p.sense * BestOf(p, feas) IN
       /\ best = opt
       /\ \A b \in bs : dv[b] = best => LET x == DecodeAt(dec, b) IN x \in feas /\ p.sense * Obj(p, x) = opt
\* no assignment looks better than its decoding is, and infeasible ones look worse
NeverBetter(p, d, dec) == \A b \in AllBits(NVars(d)) :
   LET x == DecodeAt(dec, b) dv == d.sense * Obj(d, b) pv == p.sense * Obj(p, x) IN
   dv >= pv /\ (~Feasible(p, x) => dv > pv)

\* --------------------------------------------------- reference conversions
RECURSIVE Log2(_)
Log2(v) == IF v < 2 THEN 0 ELSE 1 + Log2(v \div 2)
RefWeights(r) == LET k == IF r > 0 THEN Log2(r) ELSE 0 IN
   [i \in 1..(k + 1) |-> IF i <= k THEN Pow2(i - 1) ELSE r - (Pow2(k) - 1)]
\* bounds of a linear form over the box
LinLo(p, lin) == SumSeq([i \in 1..NVars(p) |-> Min2(lin[i] * p.vars[i].lb, lin[i] * p.vars[i].ub)])
LinHi(p, lin) == SumSeq([i \in 1..NVars(p) |-> Max2(lin[i] * p.vars[i].lb, lin[i] * p.vars[i].ub)])
\* (reference conversions are for S = 1)
RECURSIVE AddSlacks(_, _, _)
AddSlacks(p, d, k) ==
  IF k > Len(p.lc) THEN d
  ELSE LET c == p.lc[k]
           r == IF c.sense = "LE" THEN c.rhs - LinLo(p, c.lin) ELSE LinHi(p, c.lin) - c.rhs
           add == c.sense # "EQ" /\ r > 0
           n == NVars(d) + (IF add THEN 1 ELSE 0)
           lin0 == PadVec(c.lin, n)
           lin1 == IF add THEN [lin0 EXCEPT ![n] = IF c.sense = "LE" THEN 1 ELSE -1] ELSE lin0
           d2 == [d EXCEPT !.vars = IF add THEN Append(@, [name |-> c.name \o "@int_slack", type |-> "I", lb |-> 0, ub |-> r]) ELSE @,
                           !.lin = PadVec(@, n), !.quad = PadMat(@, n),
                           !.lc = Append([j \in 1..Len(@) |-> [@[j] EXCEPT !.lin = PadVec(@, n)]],
                                         [name |-> c.name, lin |-> lin1, sense |-> "EQ", rhs |-> c.rhs])]
       IN AddSlacks(p, d2, k + 1)
RefSlack(p) == AddSlacks(p, [p EXCEPT !.lc = <<>>], 1)
\* bits of all integer variables, in order
RECURSIVE RefOwners(_, _)
RefOwners(p, i) == IF i > NVars(p) THEN <<>>
  ELSE (IF p.vars[i].type = "I"
        THEN LET w == RefWeights(p.vars[i].ub - p.vars[i].lb) IN [k \in 1..Len(w) |-> [i |-> i, w |-> w[k]]]
        ELSE <<[i |-> i, w |-> 1]>>) \o RefOwners(p, i + 1)
RefDec(p) == LET o == RefOwners(p, 1) IN
  [base |-> [i \in 1..NVars(p) |-> IF p.vars[i].type = "I" THEN p.vars[i].lb ELSE 0],
   cols |-> [k \in 1..Len(o) |-> [i \in 1..NVars(p) |-> IF o[k].i = i THEN o[k].w ELSE 0]]]
RefBinary(p) ==
  LET o == RefOwners(p, 1) m == Len(o) dec == RefDec(p)
      L(lin, quad) == [k \in 1..m |-> o[k].w * (lin[o[k].i] + SumSeq([j \in 1..NVars(p) |-> (quad[o[k].i][j] + quad[j][o[k].i]) * dec.base[j]]))]
      Q(quad) == [k \in 1..m |-> [l \in 1..m |-> o[k].w * o[l].w * quad[o[k].i][o[l].i]]]
      K(lin, quad) == Dot(lin, dec.base) + Quad(quad, dec.base)
      zero == ZeroMat(NVars(p))
  IN [p EXCEPT !.vars = [k \in 1..m |-> [name |-> ToString(k), type |-> "B", lb |-> 0, ub |-> 1]],
               !.const = @ + K(p.lin, p.quad), !.lin = L(p.lin, p.quad), !.quad = Q(p.quad),
               !.lc = [c \in 1..Len(@) |-> [@[c] EXCEPT !.lin = L(@, zero), !.rhs = p.lc[c].rhs - Dot(p.lc[c].lin, dec.base)]]]
RefPenaltyFactor(p) ==
  1 + SumSeq([i \in 1..NVars(p) |-> Abs(p.lin[i]) * (p.vars[i].ub - p.vars[i].lb)])
    + LET t == Triu(p.quad)
          pr(i, j) == {a * b : a \in {p.vars[i].lb, p.vars[i].ub}, b \in {p.vars[j].lb, p.vars[j].ub}}
      IN SumSeq([i \in 1..NVars(p) |-> SumSeq([j \in 1..NVars(p) |-> Abs(t[i][j]) * (Max(pr(i, j)) - Min(pr(i, j)))])])
RefPenalty(p, P) ==
  LET n == NVars(p) s == p.sense IN
  [p EXCEPT !.const = @ + s * P * SumSeq([k \in 1..Len(p.lc) |-> p.lc[k].rhs * p.lc[k].rhs]),
            !.lin = [i \in 1..n |-> @[i] - s * 2 * P * SumSeq([k \in 1..Len(p.lc) |-> p.lc[k].lin[i] * p.lc[k].rhs])],
            !.quad = [i \in 1..n |-> [j \in 1..n |-> @[i][j] + s * P * SumSeq([k \in 1..Len(p.lc) |-> p.lc[k].lin[i] * p.lc[k].lin[j]])]],
            !.lc = <<>>]
=============================================================================
