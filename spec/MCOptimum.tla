----------------------------- MODULE MCOptimum -----------------------------
(* Dynamic programming finds the optimum: all small programs with one        *)
(* constraint, against enumeration.                                          *)
EXTENDS Optimum
CONSTANTS Cs, Ws, Rs, Ubs, Wide
VARIABLES p, done
Mk(c, d, w, u, sense, cs, r) ==
  [S |-> 1, sense |-> sense, const |-> 1, lin |-> c, quad |-> [i \in 1..Len(c) |-> [j \in 1..Len(c) |-> IF i = j THEN d[i] ELSE 0]],
   vars |-> [i \in 1..Len(c) |-> [name |-> "x", type |-> "I", lb |-> -(u[i] % 2), ub |-> u[i]]],
   lc |-> <<[name |-> "c", lin |-> w, sense |-> cs, rhs |-> r]>>, qc |-> <<>>]
n == IF Wide THEN 3 ELSE 2
Sh(v) == [i \in 1..n |-> v[i] - 2]
Init == p = <<>> /\ done = FALSE
Pick == /\ ~done /\ done' = TRUE
        /\ \E c \in [1..n -> Cs], w \in [1..n -> Ws], u \in [1..n -> Ubs], d \in [1..n -> {0, 1}], s \in {1, -1},
               cs \in {"LE", "GE", "EQ"}, r \in Rs : p' = Mk(Sh(c), d, Sh(w), u, s, cs, r - 2)
Spec == Init /\ [][Pick]_<<p, done>>
Right == done => LET F == FeasPoints(p) IN IF F = {} THEN DpBest(p) = NONE ELSE DpBest(p) # NONE /\ DpValue(p) = BestOf(p, F)
=============================================================================
