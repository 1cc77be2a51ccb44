------------------------------ MODULE Registry ------------------------------
(* The editing interface of a quadratic program as a state machine.  A state *)
(* is the abstract program; Step(st, op) is the effect of one public call,   *)
(* together with whether the call succeeds.  A failing call changes nothing. *)
EXTENDS Num

Empty == [name |-> "", status |-> "VALID", vars |-> <<>>, lc |-> <<>>, qc |-> <<>>,
          obj |-> [sense |-> 1, const |-> 0, lin |-> <<>>, quad |-> <<>>]]

Names(s) == {s[i].name : i \in 1..Len(s)}
Idx(s, nm) == CHOOSE i \in 1..Len(s) : s[i].name = nm
Ok(st) == [st |-> st, ok |-> TRUE]
Err(st) == [st |-> st, ok |-> FALSE]

\* first free name prefix<k>suffix with k >= from
RECURSIVE FirstFree(_, _, _, _)
FirstFree(pre, post, k, used) ==
  LET nm == pre \o ToString(k) \o post IN
  IF nm \in used THEN FirstFree(pre, post, k + 1, used) ELSE [name |-> nm, k |-> k]

\* names given to `count` new variables, or <<>> if one of them is taken
RECURSIVE CountNames(_, _, _, _, _)
CountNames(op, count, k, used, acc) ==
  IF count = 0 THEN acc
  ELSE IF op.fmt = "one"
       THEN LET f == FirstFree(op.base \o op.pre, op.post, k, used)
            IN CountNames(op, count - 1, f.k + 1, used \cup {f.name}, Append(acc, f.name))
       ELSE LET nm == op.base \o op.pre IN
            IF nm \in used THEN <<>>
            ELSE CountNames(op, count - 1, k + 1, used \cup {nm}, Append(acc, nm))
RECURSIVE KeyNames(_, _, _, _)
KeyNames(op, keys, used, acc) ==
  IF keys = <<>> THEN acc
  ELSE LET nm == IF op.fmt = "one" THEN op.base \o op.pre \o Head(keys) \o op.post
                 ELSE op.base \o op.pre
       IN IF nm \in used THEN <<>>
          ELSE KeyNames(op, Tail(keys), used \cup {nm}, Append(acc, nm))

NewNames(st, op) ==
  IF op.bulk = "count" THEN CountNames(op, op.count, Len(st.vars), Names(st.vars), <<>>)
  ELSE KeyNames(op, op.keys, Names(st.vars), <<>>)

AddVars(st, op) ==
  IF op.fmt = "bad" \/ (op.bulk = "count" /\ op.count < 1) THEN Err(st)
  ELSE LET names == NewNames(st, op)
           want == IF op.bulk = "count" THEN op.count ELSE Len(op.keys)
       IN IF Len(names) # want \/ (op.lb > op.ub /\ want > 0) THEN Err(st)
          ELSE Ok([st EXCEPT !.vars = @ \o [i \in 1..want |->
                     [name |-> names[i], type |-> op.type, lb |-> op.lb, ub |-> op.ub]]])

ConName(st, op, cons, letter) ==
  IF op.name # "" THEN op.name ELSE FirstFree(letter, "", Len(cons), Names(cons)).name

AddLin(st, op) ==
  IF (op.name # "" /\ op.name \in Names(st.lc)) \/ op.bad THEN Err(st)
  ELSE Ok([st EXCEPT !.lc = Append(@, [name |-> ConName(st, op, st.lc, "c"), lin |-> op.lin,
                                       sense |-> op.sense, rhs |-> op.rhs])])
AddQuad(st, op) ==
  IF (op.name # "" /\ op.name \in Names(st.qc)) \/ op.bad THEN Err(st)
  ELSE Ok([st EXCEPT !.qc = Append(@, [name |-> ConName(st, op, st.qc, "q"), lin |-> op.lin,
                                       quad |-> op.quad, sense |-> op.sense, rhs |-> op.rhs])])

RemoveNth(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
\* by: "name" or "index" (index counted from 0; negative counts from the end)
Target(s, op) == IF op.by = "name" THEN (IF op.name \in Names(s) THEN Idx(s, op.name) ELSE 0)
                 ELSE IF op.index >= 0 /\ op.index < Len(s) THEN op.index + 1
                 ELSE IF op.index < 0 /\ -op.index <= Len(s) THEN Len(s) + op.index + 1
                 ELSE 0
RemoveLin(st, op) == LET i == Target(st.lc, op) IN
  IF i = 0 THEN Err(st) ELSE Ok([st EXCEPT !.lc = RemoveNth(@, i)])
RemoveQuad(st, op) == LET i == Target(st.qc, op) IN
  IF i = 0 THEN Err(st) ELSE Ok([st EXCEPT !.qc = RemoveNth(@, i)])

SetObj(st, op) == IF op.bad THEN Err(st)
  ELSE Ok([st EXCEPT !.obj = [sense |-> op.dir, const |-> op.const, lin |-> op.lin, quad |-> op.quad]])

SetBound(st, op) == LET i == Target(st.vars, op) IN
  IF i = 0 THEN Err(st)
  ELSE IF op.side = "lb"
       THEN IF op.value > st.vars[i].ub THEN Err(st) ELSE Ok([st EXCEPT !.vars[i].lb = op.value])
       ELSE IF op.value < st.vars[i].lb THEN Err(st) ELSE Ok([st EXCEPT !.vars[i].ub = op.value])
SetType(st, op) == LET i == Target(st.vars, op) IN
  IF i = 0 THEN Err(st) ELSE Ok([st EXCEPT !.vars[i].type = op.type])
SetCon(st, op) == LET i == Target(st.lc, op) IN
  IF i = 0 THEN Err(st) ELSE Ok([st EXCEPT !.lc[i].rhs = op.rhs, !.lc[i].sense = op.sense, !.lc[i].lin = op.lin])

Step(st, op) ==
  CASE op.op = "addvars"  -> AddVars(st, op)
    [] op.op = "addlin"   -> AddLin(st, op)
    [] op.op = "addquad"  -> AddQuad(st, op)
    [] op.op = "rmlin"    -> RemoveLin(st, op)
    [] op.op = "rmquad"   -> RemoveQuad(st, op)
    [] op.op = "setobj"   -> SetObj(st, op)
    [] op.op = "setbound" -> SetBound(st, op)
    [] op.op = "settype"  -> SetType(st, op)
    [] op.op = "setcon"   -> SetCon(st, op)
    [] op.op = "setname"  -> Ok([st EXCEPT !.name = op.name])
    [] op.op = "clear"    -> Ok(Empty)

\* ------------------------------------------------------------- invariants
Unique(s) == \A i, j \in 1..Len(s) : s[i].name = s[j].name => i = j
BoundsOk(st) == \A i \in 1..Len(st.vars) : st.vars[i].lb <= st.vars[i].ub
WellFormed(st) == Unique(st.vars) /\ Unique(st.lc) /\ Unique(st.qc) /\ BoundsOk(st)
\* removing or adding never reorders what stays
Order(s, t) == \A i, j \in 1..Len(s) : i < j /\ s[i].name \in Names(t) /\ s[j].name \in Names(t)
                  => Idx(t, s[i].name) < Idx(t, s[j].name)
=============================================================================
