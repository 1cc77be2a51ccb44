----------------------------- MODULE MCRegistry -----------------------------
(* Exhaustive exploration of short edit histories over few names, and the    *)
(* generator of the histories that are replayed in the real code.            *)
EXTENDS Registry, Json
CONSTANTS MaxVars, MaxCons, Depth
VARIABLES st, last, hist
vars == <<st, last, hist>>

BaseNames == {"x", "a", "x1", "x2"}
Types == {"B", "I", "C"}
BoundsSet == {<<0, 8>>, <<-16, 24>>, <<8, 0>>, <<4, 4>>}
VarOps ==
  {[op |-> "addvars", bulk |-> "count", count |-> c, keys |-> <<>>, base |-> b, fmt |-> f, pre |-> pr, post |-> "",
    type |-> t, lb |-> bd[1], ub |-> bd[2]] :
      c \in {0, 1, 2}, b \in BaseNames, f \in {"one", "none", "bad"}, pr \in {"", "_"}, t \in {"I"}, bd \in BoundsSet}
  \cup
  {[op |-> "addvars", bulk |-> "keys", count |-> 0, keys |-> ks, base |-> b, fmt |-> f, pre |-> "", post |-> po,
    type |-> t, lb |-> bd[1], ub |-> bd[2]] :
      ks \in {<<"1", "2">>, <<"0", "0">>, <<"">>, <<"1">>}, b \in BaseNames, f \in {"one", "none"}, po \in {"", "z"},
      t \in {"C"}, bd \in {<<0, 8>>, <<8, 0>>}}
  \cup
  {[op |-> "addvars", bulk |-> "count", count |-> 1, keys |-> <<>>, base |-> b, fmt |-> f, pre |-> "", post |-> "",
    type |-> "B", lb |-> 0, ub |-> 8] : b \in BaseNames, f \in {"one", "none"}}
Coef(n) == [i \in 1..n |-> (((i * 5) % 7) - 3) * 4]
QCoef(n) == [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN ((((i * 3) + (j * 5)) % 5) - 2) * 4 ELSE 0]]
ConOps(n) ==
  {[op |-> o, name |-> nm, bad |-> b, lin |-> Coef(n), quad |-> QCoef(n), sense |-> s, rhs |-> 12] :
      o \in {"addlin", "addquad"}, nm \in {"", "c0", "c1", "q0", "c2", "q2", "q3"}, b \in BOOLEAN, s \in {"LE", "EQ"}}
RmOps == {[op |-> o, by |-> "name", name |-> nm, index |-> 0] : o \in {"rmlin", "rmquad"}, nm \in {"c0", "c1", "q0", "zz"}}
         \cup {[op |-> o, by |-> "index", name |-> "", index |-> i] : o \in {"rmlin", "rmquad"}, i \in {0, 1, -1, 5}}
ObjOps(n) == {[op |-> "setobj", bad |-> b, dir |-> d, const |-> 12, lin |-> Coef(n), quad |-> QCoef(n)] :
                b \in BOOLEAN, d \in {1, -1}}
SetOps(n) == {[op |-> "setbound", by |-> "name", name |-> nm, index |-> 0, side |-> s, value |-> v] :
                nm \in {"x0", "a", "zz"}, s \in {"lb", "ub"}, v \in {-24, 4, 40}}
          \cup {[op |-> "settype", by |-> "index", name |-> "", index |-> i, type |-> t] : i \in {0, 7}, t \in {"B", "C"}}
          \cup {[op |-> "setcon", by |-> "index", name |-> "", index |-> i, rhs |-> -8, sense |-> "GE", lin |-> Coef(n)] : i \in {0, -1, 4}}
          \cup {[op |-> "setname", name |-> nm] : nm \in {"p", ""}}
Ops(s) == VarOps \cup ConOps(Len(s.vars)) \cup RmOps \cup ObjOps(Len(s.vars)) \cup SetOps(Len(s.vars)) \cup {[op |-> "clear"]}

Init == st = Empty /\ last = "ok" /\ hist = <<>>
Do(op) == LET r == Step(st, op) IN st' = r.st /\ last' = (IF r.ok THEN "ok" ELSE "err") /\ hist' = Append(hist, op)
\* the exhaustive run drops what only multiplies states: one bound pair per outcome, one
\* type, no coefficients
Lean(o) == /\ o.op = "addvars" => (o.lb = 0 \/ o.lb = 8) /\ o.type # "B" /\ o.pre = "" /\ o.base \notin {"a", "x2"} /\ o.post = ""
           /\ o.op \in {"addlin", "addquad"} => o.sense = "LE" /\ o.name \notin {"c1", "q0", "q2", "q3"}
           /\ o.op = "setobj" => o.dir = 1
           /\ o.op = "setbound" => o.value # -24 /\ o.name # "a"
           /\ o.op \notin {"settype", "setcon", "setname"}
Strip(s) == [s EXCEPT !.obj = Empty.obj, !.lc = [i \in 1..Len(@) |-> [@[i] EXCEPT !.lin = <<>>]],
                      !.qc = [i \in 1..Len(@) |-> [@[i] EXCEPT !.lin = <<>>, !.quad = <<>>]]]
NextExh == \E op \in {o \in Ops(st) : Lean(o)} : LET r == Step(st, op) IN
              st' = Strip(r.st) /\ last' = (IF r.ok THEN "ok" ELSE "err") /\ hist' = <<>>
\* one random call from a random group per step, so that a simulated behaviour is one history
Groups(n) == <<VarOps, {o \in VarOps : o.fmt # "bad" /\ o.lb <= o.ub}, ConOps(n),
               {o \in ConOps(n) : ~o.bad}, RmOps, ObjOps(n), SetOps(n), RmOps>>
NextGen == \/ /\ Len(hist) < Depth /\ last # "done"
              /\ \E g \in {RandomElement(1..9)} :
                 \E op \in {IF g = 9 THEN (IF Len(hist) % 5 = 4 THEN [op |-> "clear"] ELSE RandomElement(VarOps))
                            ELSE RandomElement(Groups(Len(st.vars))[g])} : Do(op)
           \/ /\ Len(hist) = Depth /\ last # "done" /\ last' = "done" /\ UNCHANGED <<st, hist>>
Exhaustive == Init /\ [][NextExh]_vars
Generate == Init /\ [][NextGen]_vars
Small == Len(st.vars) <= MaxVars /\ Len(st.lc) <= MaxCons /\ Len(st.qc) <= MaxCons
Inv == WellFormed(st)
FailedKeepsState == [][last' = "err" => st' = st]_vars
KeepsOrder == [][Order(st.vars, st'.vars) /\ Order(st.lc, st'.lc) /\ Order(st.qc, st'.qc)]_vars
Emit == last = "done" => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
