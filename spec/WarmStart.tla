------------------------------ MODULE WarmStart ------------------------------
(* Warm-started QAOA: pre-solve, then for each of the first pre-solutions    *)
(* prepare a product state around it, run, and combine the samples.          *)
(* Pre-solutions and the regularisation are in units of 1/8, probabilities   *)
(* in parts per million.                                                     *)
EXTENDS Samples
ClipTo(v, e) == IF v < e THEN e ELSE IF v > 8 - e THEN 8 - e ELSE v
StateOf(x, e) == [i \in 1..Len(x) |-> ClipTo(x[i], e)]
\* probability of measuring one, per qubit
Prepared(x, e, ones) == Len(ones) = Len(x) /\ \A i \in 1..Len(x) : Near(ones[i], 125000 * ClipTo(x[i], e), 2)
\* in the basis of the prepared state the mixer is diagonal and turns the k-th
\* basis state by the angle beta per excited qubit (beta = 1/4; milliradians)
PopCount(b) == SumSeq(b)
Mixes(n, off, turns) == /\ Near(off, 0, 2) /\ Len(turns) = Pow2(n)
                        /\ \A k \in 1..Pow2(n) : Near(turns[k], -500 * PopCount(BitsLE(k - 1, n)), 2)
\* probability that the runs give an assignment, over all runs
Combined(dec, runs, x) == SumSeq([r \in 1..Len(runs) |-> SumOver(runs[r], LAMBDA e : DecodeAt(dec, e.x) = x)])
AllXs(dec, runs) == UNION {DecodedXs(dec, runs[r]) : r \in 1..Len(runs)}
MeanOK(p, dec, runs, s) ==
  /\ Distinct(s) /\ Xs(s) = AllXs(dec, runs)
  /\ \A i \in 1..Len(s) : Near(Len(runs) * s[i].prob, Combined(dec, runs, s[i].x), 4 + 8 * Len(runs))
Labelled(p, s) == \A i \in 1..Len(s) : s[i].fval = Obj(p, s[i].x) /\ s[i].ok = Feasible(p, s[i].x)
=============================================================================
