---------------------------- MODULE MCWarmStart ----------------------------
(* Two or three runs with every distribution over the four assignments of a  *)
(* constrained program; the mean is a distribution, keeps every sampled      *)
(* assignment, and its best entry is feasible if any run found a feasible    *)
(* one.                                                                      *)
EXTENDS WarmStart
CONSTANTS Runs, W
VARIABLES sense, runs, agg
P == [S |-> 1, vars |-> <<[name |-> "a", type |-> "B", lb |-> 0, ub |-> 1], [name |-> "b", type |-> "B", lb |-> 0, ub |-> 1]>>, sense |-> sense,
      const |-> 0, lin |-> <<1, -2>>, quad |-> ZeroMat(2), lc |-> <<[name |-> "c", lin |-> <<1, 1>>, sense |-> "LE", rhs |-> 1]>>, qc |-> <<>>]
Dec == [base |-> <<0, 0>>, cols |-> <<<<1, 0>>, <<0, 1>>>>]
Dists == {f \in [AllBits(2) -> 0..W] : SumFn(f, DOMAIN f) = W}
AsSeq(f) == LET xs == SetToSeq({x \in DOMAIN f : f[x] > 0}) IN [i \in 1..Len(xs) |-> [x |-> xs[i], prob |-> f[xs[i]]]]
Init == sense \in {1, -1} /\ runs = <<>> /\ agg = <<>>
Run == Len(runs) < Runs /\ \E f \in Dists : runs' = Append(runs, AsSeq(f)) /\ UNCHANGED <<sense, agg>>
Left == AllXs(Dec, runs) \ Xs(agg)
Ahead(x, y) == LET f == Feasible(P, x) g == Feasible(P, y) IN (f /\ ~g) \/ (f = g /\ P.sense * Obj(P, x) <= P.sense * Obj(P, y))
Combine == /\ Len(runs) = Runs /\ Left # {}
           /\ \E x \in Left : (\A y \in Left : Ahead(x, y)) /\
                agg' = Append(agg, [x |-> x, fval |-> Obj(P, x), ok |-> Feasible(P, x), prob |-> Combined(Dec, runs, x)])
           /\ UNCHANGED <<sense, runs>>
Spec == Init /\ [][Run \/ Combine]_<<sense, runs, agg>>
Done == Len(runs) = Runs /\ Left = {}
Total == Done => SumSeq([i \in 1..Len(agg) |-> agg[i].prob]) = Runs * W
Order == Sorted(P, agg) /\ Labelled(P, agg)
Best == Done => \A r \in 1..Runs : \A e \in 1..Len(runs[r]) : Ahead(agg[1].x, runs[r][e].x)
\* the clipped pre-solution stays strictly between 0 and 1 unless the regularisation is zero
Clip == \A v, e \in 0..8 : e <= 4 => LET c == ClipTo(v, e) IN e <= c /\ c <= 8 - e /\ (e <= v /\ v <= 8 - e => c = v)
=============================================================================
