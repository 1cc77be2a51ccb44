------------------------------- MODULE Samples -------------------------------
(* From a state to raw samples to samples of the original problem to a      *)
(* result.  A state is a sequence of [x, prob] (x in variable order,        *)
(* probabilities in parts per W); a sample is [x, fval, prob, ok].          *)
EXTENDS Converters

SumOver(seq, pred(_)) == SumSeq([i \in 1..Len(seq) |-> IF pred(seq[i]) THEN seq[i].prob ELSE 0])
Sorted(p, s) == \A i \in 1..(Len(s) - 1) :
   \/ s[i].ok /\ ~s[i+1].ok
   \/ s[i].ok = s[i+1].ok /\ p.sense * s[i].fval <= p.sense * s[i+1].fval
SortedByValue(d, s) == \A i \in 1..(Len(s) - 1) : d.sense * s[i].fval <= d.sense * s[i+1].fval
Distinct(s) == \A i, j \in 1..Len(s) : s[i].x = s[j].x => i = j
Xs(s) == {s[i].x : i \in 1..Len(s)}
\* probabilities are recorded rounded to parts per W
Near(a, b, n) == Abs(a - b) <= n
ProbAt(s, x) == SumOver(s, LAMBDA e : e.x = x)

\* raw samples of the converted program d
RawOK(d, state, raw) ==
  /\ Distinct(raw) /\ Xs(raw) = Xs(state) /\ SortedByValue(d, raw)
  /\ \A i \in 1..Len(raw) : Near(raw[i].prob, ProbAt(state, raw[i].x), 2) /\ raw[i].fval = Obj(d, raw[i].x)
\* samples of the original program p obtained by decoding
DecodedXs(dec, raw) == {DecodeAt(dec, x) : x \in Xs(raw)}
SamplesOK(p, dec, raw, s) ==
  /\ Distinct(s) /\ Xs(s) = DecodedXs(dec, raw) /\ Sorted(p, s)
  /\ \A i \in 1..Len(s) :
       /\ Near(s[i].prob, SumOver(raw, LAMBDA e : DecodeAt(dec, e.x) = s[i].x), 1 + Len(raw))
       /\ s[i].fval = Obj(p, s[i].x) /\ s[i].ok = Feasible(p, s[i].x)
\* the reported solution is the decoding of a best raw sample
SolutionOK(p, d, dec, raw, x) ==
  \E i \in 1..Len(raw) : /\ \A j \in 1..Len(raw) : d.sense * raw[i].fval <= d.sense * raw[j].fval
                         /\ x = DecodeAt(dec, raw[i].x)
ResultOK(p, r) == /\ Len(r.x) = NVars(p) /\ r.fval = Obj(p, r.x) /\ r.ok = Feasible(p, r.x)
=============================================================================
