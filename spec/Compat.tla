------------------------------- MODULE Compat -------------------------------
(* Which problems each optimizer and conversion accepts, and the gate in     *)
(* front of solving.                                                         *)
EXTENDS QP
Has(p, t) == \E i \in 1..NVars(p) : p.vars[i].type = t
OnlyType(p, t) == \A i \in 1..NVars(p) : p.vars[i].type = t
Whole(p, c) == \A i \in 1..Len(c.lin) : c.lin[i] % p.S = 0
QuboAble(p) == ~Has(p, "C") /\ p.qc = <<>> /\ \A k \in 1..Len(p.lc) : Whole(p, p.lc[k])
Separable(p) == \A i, j \in 1..NVars(p) :
   p.vars[i].type = "C" /\ p.vars[j].type # "C" => p.quad[i][j] + p.quad[j][i] = 0
Unconstrained(p) == p.lc = <<>> /\ p.qc = <<>>
Accepts(kind, p) ==
  CASE kind \in {"eigen", "recursive", "grover", "warm", "toqubo"} -> QuboAble(p)
    [] kind \in {"slsqp", "cobyla"} -> OnlyType(p, "C")
    [] kind = "cuts" -> OnlyType(p, "B")
    [] kind = "admm" -> Separable(p)
    [] kind = "cplex" -> TRUE
    [] kind = "penalty" -> p.qc = <<>> /\ \A k \in 1..Len(p.lc) : p.lc[k].sense = "EQ"
    [] kind = "ising" -> OnlyType(p, "B") /\ Unconstrained(p)
\* configuration values: numbers are in units of 1/16, a list is given by whether each entry is a converter
ValidSetting(what, v) ==
  CASE what = "epsilon" -> 0 <= v /\ v <= 8
    [] what = "min_num_vars" -> v >= 16
    [] what = "converters" -> \A i \in 1..Len(v) : v[i]
    [] what = "bounds" -> v[1] <= v[2]
    [] what = "flag" -> v
\* the gate: given -> refused | running -> returned
GInit == "given"
GStep(kind, p, g) == CASE g = "given" -> (IF Accepts(kind, p) THEN "running" ELSE "refused")
                       [] g = "running" -> "returned"
                       [] OTHER -> g
=============================================================================
