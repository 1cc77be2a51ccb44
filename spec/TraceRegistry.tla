---------------------------- MODULE TraceRegistry ----------------------------
(* Replays recorded edit histories of the real code against Registry.        *)
EXTENDS Registry, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st, bad
vars == <<case, pos, st, bad>>

IndexMap(s) == {<<s[i].name, i - 1>> : i \in 1..Len(s)}
Pairs(m) == {<<m[i][1], m[i][2]>> : i \in 1..Len(m)}
CountType(s, t) == Cardinality({i \in 1..Len(s) : s[i].type = t})
SameLinCon(a, b, n) == a.name = b.name /\ PadVec(a.lin, n) = b.lin /\ a.sense = b.sense /\ a.rhs = b.rhs
SameQuadCon(a, b, n) == SameLinCon(a, b, n) /\ Triu(PadMat(a.quad, n)) = Triu(b.quad)

\* failures that are documented to be reported with the library's own exception
Documented(s, op) ==
  CASE op.op = "addvars" -> TRUE
    [] op.op \in {"addlin", "addquad"} -> IF op.bad THEN op.why # "variable" ELSE TRUE
    [] op.op = "setobj" -> op.why # "variable"
    [] op.op = "setbound" -> Target(s.vars, op) # 0
    [] OTHER -> FALSE

NewNamesOf(a, b) == [i \in 1..(Len(b) - Len(a)) |-> b[Len(a) + i].name]

Clauses(s, ev) ==
  LET r == Step(s, ev.op)
      e == r.st
      o == ev.post
      n == Len(e.vars)
      C(name, holds) == IF holds THEN {} ELSE {name}
  IN C("call succeeds exactly when the specification allows it", ev.ok = r.ok)
     \cup C("documented exception type", (~ev.ok /\ ~r.ok /\ Documented(s, ev.op)) => ev.exc = "QiskitOptimizationError")
     \cup C("program name and status", o.name = e.name /\ o.status = e.status)
     \cup (IF Len(o.vars) = n /\ (\A i \in 1..n : o.vars[i] = e.vars[i]) THEN
              C("variable index is the inverse of the variable list", Pairs(o.vmap) = IndexMap(e.vars) /\ Len(o.vmap) = n)
              \cup C("counts by type", o.counts = [total |-> n, B |-> CountType(e.vars, "B"), I |-> CountType(e.vars, "I"), C |-> CountType(e.vars, "C")])
           ELSE {"variables in order with name, type and bounds"})
     \cup C("linear constraints in order with their content", Len(o.lc) = Len(e.lc) /\ \A i \in 1..Len(e.lc) : SameLinCon(e.lc[i], o.lc[i], n))
     \cup C("quadratic constraints in order with their content", Len(o.qc) = Len(e.qc) /\ \A i \in 1..Len(e.qc) : SameQuadCon(e.qc[i], o.qc[i], n))
     \cup C("constraint indexes are the inverse of the lists",
            /\ Pairs(o.lmap) = IndexMap(e.lc) /\ Len(o.lmap) = Len(e.lc)
            /\ Pairs(o.qmap) = IndexMap(e.qc) /\ Len(o.qmap) = Len(e.qc)
            /\ o.numl = Len(e.lc) /\ o.numq = Len(e.qc))
     \cup C("objective", /\ o.obj.sense = e.obj.sense /\ o.obj.const = e.obj.const
                         /\ o.obj.lin = PadVec(e.obj.lin, n) /\ Triu(o.obj.quad) = Triu(PadMat(e.obj.quad, n)))
     \cup C("lookup by name and by position return the listed element", o.lookup)
     \cup C("elements belong to this program", o.owner)
     \cup C("names returned by the call", (ev.ok /\ r.ok /\ ev.op.op = "addvars") => ev.ret = NewNamesOf(s.vars, e.vars))
     \cup C("constraint returned by the call", (ev.ok /\ r.ok /\ ev.op.op = "addlin") => ev.ret = NewNamesOf(s.lc, e.lc))
     \cup C("constraint returned by the call", (ev.ok /\ r.ok /\ ev.op.op = "addquad") => ev.ret = NewNamesOf(s.qc, e.qc))

Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Empty /\ bad = {}
Crash == Cases[case].kind = "crash" /\ pos = 0 /\ bad = {} /\ bad' = {"unexpected failure"} /\ UNCHANGED <<case, pos, st>>
Event == /\ Cases[case].kind # "crash" /\ bad = {} /\ pos < Len(Cases[case].events)
         /\ LET ev == Cases[case].events[pos + 1] IN
              /\ bad' = Clauses(st, ev)
              /\ st' = Step(st, ev.op).st
         /\ pos' = pos + 1 /\ UNCHANGED case
Next == Crash \/ Event
Spec == Init /\ [][Next]_vars
Judge == bad # {} => PrintT(<<"BAD", case, bad>>) /\ FALSE
WF == WellFormed(st)
=============================================================================
