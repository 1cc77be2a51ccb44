------------------------------- MODULE Grover -------------------------------
(* Adaptive search: measure an assignment and its value relative to the      *)
(* threshold; accept it if it is better than everything accepted before and  *)
(* make its value the new threshold; stop after N measurements without       *)
(* improvement, or when every assignment has been seen without improvement.  *)
(* Values are in the minimisation form.                                      *)
EXTENDS Samples

Inf == 1000000
GInit == [thr |-> 0, best |-> Inf, x |-> <<>>, idle |-> 0, seen |-> {}, count |-> 0, dist |-> <<>>]
Accepts(s, v) == v + s.thr < s.best
\* one measurement with outcome assignment x and relative value v
GMeasure(s, x, v, dist) ==
  IF Accepts(s, v)
  THEN [s EXCEPT !.thr = v + s.thr, !.best = v + s.thr, !.x = x, !.idle = 0, !.count = @ + 1, !.dist = dist]
  ELSE [s EXCEPT !.idle = @ + 1, !.seen = @ \cup {x}, !.count = @ + 1]
GStops(s, N, n) == s.idle >= N \/ Cardinality(s.seen) = Pow2(n)
\* two's complement in a register of m bits
Wrap(v, m) == LET r == v % Pow2(m) IN IF r >= Pow2(m - 1) THEN r - Pow2(m) ELSE r
MinVal(d, x) == d.sense * Obj(d, x)
CircuitOK(d, thr, support, m) == \A k \in 1..Len(support) : support[k].v = Wrap(MinVal(d, support[k].x) - thr, m)
\* amplification: exactly the assignments below the threshold are amplified; after r
\* rotations they are measured with probability sin^2((2r+1)a), sin^2(a) = good/2^n,
\* that is (1 - T(2r+1, 1 - 2 good/2^n)) / 2 with the Chebyshev polynomial T
RECURSIVE Cheb(_, _, _)
Cheb(k, c, den) == IF k = 0 THEN 1 ELSE IF k = 1 THEN c ELSE 2 * c * Cheb(k - 1, c, den) - den * den * Cheb(k - 2, c, den)
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
GoodXs(d, thr) == {x \in AllBits(NVars(d)) : MinVal(d, x) < thr}
PerMille(n, good, r) == LET den == Pow2(n - 1) k == 2 * r + 1 IN ((Power(den, k) - Cheb(k, den - good, den)) * 500) \div Power(den, k)
Amplified(d, thr, cells, r) ==
  LET n == NVars(d) good == GoodXs(d, thr)
      p(x) == SumOver(cells, LAMBDA e : e.x = x)
      total == SumOver(cells, LAMBDA e : e.x \in good) IN
  /\ \A x, y \in AllBits(n) : (x \in good) = (y \in good) => Near(p(x), p(y), 20)
  /\ Near(total \div 1000, PerMille(n, Cardinality(good), r), 2)
\* the assignment that is returned: the accepted one, or the zero assignment if
\* that is known to be at least as good
Returned(d, s, x) == \/ x = s.x
                     \/ x = Zeros(NVars(d)) /\ d.const = 0 /\ s.best >= 0
=============================================================================
