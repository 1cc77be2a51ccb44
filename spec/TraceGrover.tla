---------------------------- MODULE TraceGrover ----------------------------
EXTENDS Grover, Judge
XStart(c) == GInit
\* in a simulated history the accepted value shows in the next circuit's threshold
ThrOf(d, support, m) == LET e == support[1] IN MinVal(d, e.x) - e.v
Moved(s, t) == [s EXCEPT !.thr = t, !.best = t, !.idle = 0]
XAdvance(s, ev) ==
  CASE ev.ev = "measure" -> GMeasure(s, ev.x, ev.v, ev.dist)
    [] ev.ev = "circuit" -> LET t == ThrOf(ev.d, ev.support, ev.m) IN
         IF s.count > 0 /\ (t # s.thr \/ s.best = Inf) THEN [Moved(s, t) EXCEPT !.count = @ + 1, !.dist = ev.before]
         ELSE [s EXCEPT !.idle = IF s.count = 0 THEN 0 ELSE @ + 1, !.count = @ + 1]
    [] OTHER -> s
Result(s, ev) ==
  LET d == ev.d p == ev.p IN
  Cl("threshold is the best accepted value", ev.thr = s.best)
  \cup Cl("one entry of operation counts per measurement", ev.ops = ev.runs)
  \cup Cl("register sizes", ev.nin = NVars(d) /\ ev.nout = ev.m)
  \cup Cl("raw samples are those of the accepting measurement",
          Distinct(ev.raw) /\ Xs(ev.raw) = Xs(s.dist) /\ SortedByValue(d, ev.raw)
          /\ \A i \in 1..Len(ev.raw) : Near(ev.raw[i].prob, ProbAt(s.dist, ev.raw[i].x), 3) /\ ev.raw[i].fval = Obj(d, ev.raw[i].x))
  \cup Cl("samples are the decoded raw samples", SamplesOK(p, ev.dec, ev.raw, ev.samples))
  \cup Cl("probabilities sum to one", Near(SumSeq([i \in 1..Len(ev.samples) |-> ev.samples[i].prob]), 1000000, 5 + Len(ev.samples)))
  \cup Cl("value and status are those of the original problem", ResultOK(p, ev))
XVerdict(s, ev) ==
  CASE ev.ev = "measure" ->
         Cl("search ends when nothing improves", ~GStops(s, ev.N, NVars(ev.d)))
    [] ev.ev = "circuit" ->
         LET t == ThrOf(ev.d, ev.support, ev.m) IN
         Cl("circuit encodes the objective relative to one threshold", CircuitOK(ev.d, t, ev.support, ev.m))
         \cup Cl("circuit amplifies exactly the assignments below the threshold", \E r \in 0..ev.rmax : Amplified(ev.d, t, ev.support, r))
         \cup Cl("circuit reaches every assignment", Len(ev.support) = Pow2(NVars(ev.d)) \/ ~ev.first)
         \cup Cl("first threshold is zero", s.count = 0 => t = 0)
         \cup Cl("threshold moves only down to a measured value",
                 s.count > 0 /\ t # s.thr => (t < s.best /\ \E x \in Xs(ev.before) : MinVal(ev.d, x) = t))
         \cup Cl("first measurement is accepted", s.count = 1 => \E x \in Xs(ev.before) : MinVal(ev.d, x) = t)
         \cup Cl("search ends when nothing improves", s.count > 0 /\ t = s.thr /\ s.best # Inf => s.idle + 1 < ev.N)
    [] ev.ev = "end" ->
         Cl("search goes on until nothing improves", GStops(s, ev.N, NVars(ev.d)) \/ s.count * 4 >= 79)
         \cup Cl("returned assignment is the best accepted",
                 \E x \in {s.x, Zeros(NVars(ev.d))} : Returned(ev.d, s, x) /\ ev.x = DecodeAt(ev.dec, x) /\ ev.ival = Obj(ev.d, x))
         \cup Result(s, ev)
    [] ev.ev = "simend" ->
         \* the last measurement is never an accepted one
         LET idle == s.idle + 1 IN
         Cl("search goes on until nothing improves", idle >= ev.N \/ s.count >= Pow2(NVars(ev.d)) \/ s.count * 4 >= 79)
         \cup Cl("returned assignment is the best accepted", \E x \in AllBits(NVars(ev.d)) :
                   /\ MinVal(ev.d, x) = s.best \/ (x = Zeros(NVars(ev.d)) /\ ev.d.const = 0 /\ s.best >= 0)
                   /\ ev.x = DecodeAt(ev.dec, x) /\ ev.ival = Obj(ev.d, x))
         \cup Result(s, ev)
=============================================================================
