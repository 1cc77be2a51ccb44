---------------------------- MODULE TraceInt2Bin ----------------------------
EXTENDS Converters, Judge
XStart(c) == <<>>
XAdvance(s, ev) == s
XVerdict(s, ev) ==
  LET p == ev.p d == ev.d dec == ev.dec IN
  Then(Cl("one column per new variable, one row per old one", Len(dec.cols) = NVars(d) /\ Len(dec.base) = NVars(p) /\ ev.lens),
  Then(Cl("no integer variables left", \A k \in 1..NVars(d) : d.vars[k].type # "I")
       \cup Cl("encodings take exactly the values between the bounds", EncodingOK(p, d, dec))
       \cup Cl("other variables kept", OthersKept(p, d, dec)),
  Cl("objective kept at every assignment", PolyKept(p, d, dec))
  \cup Cl("constraints kept at every assignment", ConsKept(p, d, dec))
  \cup Cl("program name and status kept", p.name = d.name /\ d.status = "VALID")
  \cup Cl("decoding is the recorded affine map", \A n \in 1..Len(ev.probes) : ev.probes[n].x = DecodeAt(dec, ev.probes[n].b))
  \cup Cl("source unchanged", SameProgram(p, ev.after))))
=============================================================================
