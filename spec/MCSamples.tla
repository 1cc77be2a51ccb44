------------------------------ MODULE MCSamples ------------------------------
(* Sampling pipeline as a state machine on a small constrained program: any  *)
(* state of the QUBO's qubits is turned into raw samples, samples and a      *)
(* result; samples appear one at a time in any order allowed by sorting.     *)
EXTENDS Samples
CONSTANT W
VARIABLES sense, state, raw, smp, phase
vars == <<sense, state, raw, smp, phase>>
Src == [S |-> 1, name |-> "", status |-> "VALID", sense |-> sense, const |-> 1, lin |-> <<2, -1>>, quad |-> <<<<0, 1>>, <<0, 0>>>>,
        vars |-> <<[name |-> "i", type |-> "I", lb |-> 0, ub |-> 2], [name |-> "b", type |-> "B", lb |-> 0, ub |-> 1]>>,
        lc |-> <<[name |-> "c", lin |-> <<1, 1>>, sense |-> "EQ", rhs |-> 2]>>, qc |-> <<>>]
D == LET b == RefBinary(Src) IN RefPenalty(b, RefPenaltyFactor(b))
Dec == RefDec(Src)
States == {s \in [AllBits(NVars(D)) -> {0, 1, W \div 2, W}] : SumFn(s, DOMAIN s) = W}
AsSeq(f) == LET xs == SetToSeq({x \in DOMAIN f : f[x] > 0}) IN [i \in 1..Len(xs) |-> [x |-> xs[i], prob |-> f[xs[i]]]]
Init == /\ sense \in {1, -1} /\ state \in {AsSeq(f) : f \in States} /\ raw = <<>> /\ smp = <<>> /\ phase = "raw"
AddRaw == /\ phase = "raw" /\ Xs(raw) # Xs(state)
          /\ \E x \in Xs(state) \ Xs(raw) :
               /\ \A y \in Xs(state) \ Xs(raw) : D.sense * Obj(D, x) <= D.sense * Obj(D, y)
               /\ raw' = Append(raw, [x |-> x, fval |-> Obj(D, x), prob |-> ProbAt(state, x)])
          /\ UNCHANGED <<sense, state, smp, phase>>
ToSamples == phase = "raw" /\ Xs(raw) = Xs(state) /\ phase' = "samples" /\ UNCHANGED <<sense, state, raw, smp>>
Left == DecodedXs(Dec, raw) \ Xs(smp)
Before(x, y) == LET f == Feasible(Src, x) g == Feasible(Src, y) IN
   (f /\ ~g) \/ (f = g /\ Src.sense * Obj(Src, x) <= Src.sense * Obj(Src, y))
AddSample == /\ phase = "samples" /\ Left # {}
             /\ \E x \in Left : /\ \A y \in Left : Before(x, y)
                                /\ smp' = Append(smp, [x |-> x, fval |-> Obj(Src, x), ok |-> Feasible(Src, x),
                                                       prob |-> SumOver(raw, LAMBDA e : DecodeAt(Dec, e.x) = x)])
             /\ UNCHANGED <<sense, state, raw, phase>>
Finish == phase = "samples" /\ Left = {} /\ phase' = "done" /\ UNCHANGED <<sense, state, raw, smp>>
Next == AddRaw \/ ToSamples \/ AddSample \/ Finish
Spec == Init /\ [][Next]_vars
RawInv == phase = "samples" => RawOK(D, state, raw)
SampleInv == phase = "done" => SamplesOK(Src, Dec, raw, smp)
\* probability is conserved and the solution is the best feasible assignment sampled
Conserve == phase = "done" => SumSeq([i \in 1..Len(smp) |-> smp[i].prob]) = W
BestFirst == phase = "done" =>
   LET fs == {x \in Xs(smp) : Feasible(Src, x)} IN
   fs # {} => /\ smp[1].ok /\ smp[1].fval = BestOf(Src, fs)
              /\ SolutionOK(Src, D, Dec, raw, smp[1].x)
=============================================================================
