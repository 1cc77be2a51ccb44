---------------------------- MODULE MCRecursive ----------------------------
(* All eliminations of a small program: whatever pairs and signs are chosen, *)
(* every round is sound, and the rebuilt assignment has the value of the     *)
(* final answer and is best among the assignments obeying the replacements.  *)
EXTENDS Recursive
CONSTANTS MinVars, N
VARIABLES d0, p, reps, phase, y
Cs == {-2, 0, 1}
Var(i) == [name |-> ToString(i), type |-> "B", lb |-> 0, ub |-> 1]
Progs == {[S |-> 1, status |-> "VALID", vars |-> [i \in 1..N |-> Var(i)], sense |-> s, const |-> 1, lin |-> l,
           quad |-> [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN q[1] ELSE IF i < j THEN q[1 + ((i + j) % 2)] ELSE q[3]]], lc |-> <<>>, qc |-> <<>>] :
           s \in {1, -1}, l \in [1..N -> Cs], q \in [1..3 -> Cs]}
Init == d0 \in Progs /\ p = d0 /\ reps = <<>> /\ phase = "round" /\ y = <<>>
Round == /\ phase = "round" /\ NVars(p) > MinVars
         /\ \E v, b \in 1..NVars(p), sgn \in {1, -1} : v # b
              /\ p' = FoldVar(p, v, b, sgn)
              /\ reps' = Append(reps, [v |-> p.vars[v].name, by |-> p.vars[b].name, sgn |-> sgn])
         /\ UNCHANGED <<d0, phase, y>>
Finish == /\ phase = "round" /\ NVars(p) <= MinVars /\ phase' = "done"
          /\ y' \in Argmin(p, AllBits(NVars(p)))
          /\ UNCHANGED <<d0, p, reps>>
Spec == Init /\ [][Round \/ Finish]_<<d0, p, reps, phase, y>>
Sound == \A v, b \in 1..NVars(p), sgn \in {1, -1} :
   v # b => RoundOK(p, [v |-> p.vars[v].name, by |-> p.vars[b].name, sgn |-> sgn], FoldVar(p, v, b, sgn))
Best == phase = "done" => LET O == {x \in AllBits(N) : Obeys(d0, x, reps)} IN
   /\ Cardinality({x \in O : AgreesWith(d0, x, p, y)}) = 1
   /\ LET x == Rebuilt(d0, reps, p, y) IN Obj(d0, x) = Obj(p, y) /\ x \in Argmin(d0, O)
=============================================================================
