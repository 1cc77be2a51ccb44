------------------------------ MODULE Recursive ------------------------------
(* Recursive elimination.  A round looks at weighted samples of the current  *)
(* binary program, picks a pair of variables of strongest correlation, and   *)
(* replaces one by the other (sgn = 1) or by its opposite (sgn = -1).        *)
EXTENDS Converters

Corr(smp, i, j) == SumSeq([k \in 1..Len(smp) |-> IF smp[k].x[i] = smp[k].x[j] THEN smp[k].w ELSE -smp[k].w])
Pairs(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}
Strongest(smp, n) == {e \in Pairs(n) : \A f \in Pairs(n) : Abs(Corr(smp, f[1], f[2])) <= Abs(Corr(smp, e[1], e[2]))}
SignOK(c, sgn) == (c > 0 => sgn = 1) /\ (c < 0 => sgn = -1) /\ sgn \in {1, -1}
IndexOf(p, name) == CHOOSE i \in 1..NVars(p) : p.vars[i].name = name
HasVar(p, name) == \E i \in 1..NVars(p) : p.vars[i].name = name
Drop(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Flip(v, sgn) == IF sgn = 1 THEN v ELSE 1 - v
\* the full assignment behind an assignment y of the remaining variables
Extend(p, v, b, sgn, y) == LET At(i) == y[IF i < v THEN i ELSE i - 1] IN
   [i \in 1..NVars(p) |-> IF i = v THEN Flip(At(b), sgn) ELSE At(i)]
\* d is p with variable v replaced
RoundOK(p, rep, d) ==
  /\ HasVar(p, rep.v) /\ HasVar(p, rep.by) /\ rep.v # rep.by
  /\ LET v == IndexOf(p, rep.v) b == IndexOf(p, rep.by) IN
     /\ NVars(d) = NVars(p) - 1 /\ d.sense = p.sense /\ d.lc = <<>> /\ d.qc = <<>> /\ d.status = "VALID"
     /\ \A i \in 1..NVars(d) : LET a == Drop(p.vars, v)[i] IN
           d.vars[i].name = a.name /\ d.vars[i].type = "B" /\ d.vars[i].lb = 0 /\ d.vars[i].ub = d.S
     /\ \A y \in AllBits(NVars(d)) : Obj(d, y) = Obj(p, Extend(p, v, b, rep.sgn, y))
ChoiceOK(p, smp, rep) == LET v == IndexOf(p, rep.v) b == IndexOf(p, rep.by) e == <<Min2(v, b), Max2(v, b)>> IN
  e \in Strongest(smp, NVars(p)) /\ SignOK(Corr(smp, v, b), rep.sgn)
\* an assignment of the converted program d0 obeys the replacements
Obeys(d0, x, reps) == \A k \in 1..Len(reps) :
   x[IndexOf(d0, reps[k].v)] = Flip(x[IndexOf(d0, reps[k].by)], reps[k].sgn)
AgreesWith(d0, x, last, y) == \A i \in 1..NVars(last) : x[IndexOf(d0, last.vars[i].name)] = y[i]
\* the assignment reconstructed from the final answer y for the last program
Rebuilt(d0, reps, last, y) == CHOOSE x \in AllBits(NVars(d0)) : Obeys(d0, x, reps) /\ AgreesWith(d0, x, last, y)

\* the reference elimination, on coefficients
FoldVar(p, v, b, sgn) ==
  LET n == NVars(p)
      q == Triu(p.quad)
      Q(i, j) == IF i < j THEN q[i][j] ELSE q[j][i]
      \* x_v = a0 + sgn * x_b
      a0 == IF sgn = 1 THEN 0 ELSE 1
      lin(k) == p.lin[k] + (IF k = v THEN 0 ELSE a0 * Q(k, v))
      linb == p.lin[b] + sgn * p.lin[v] + a0 * Q(b, v) + 2 * a0 * sgn * q[v][v]
      qbb == q[b][b] + sgn * Q(b, v) + q[v][v]
      quad == [i \in 1..n |-> [j \in 1..n |->
                 IF i = v \/ j = v \/ i > j THEN 0
                 ELSE IF i = b /\ j = b THEN qbb
                 ELSE q[i][j] + (IF i = b THEN sgn * Q(j, v) ELSE IF j = b THEN sgn * Q(i, v) ELSE 0)]]
      full == [k \in 1..n |-> IF k = b THEN linb ELSE lin(k)]
  IN [p EXCEPT !.vars = Drop(p.vars, v), !.const = p.const + a0 * p.lin[v] + a0 * q[v][v], !.lin = Drop(full, v),
               !.quad = [i \in 1..(n - 1) |-> Drop(Drop(quad, v)[i], v)]]
=============================================================================
