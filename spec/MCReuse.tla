------------------------------ MODULE MCReuse ------------------------------
(* Why histories are needed: an object that keeps state between calls.  Leak *)
(* selects what it forgets to reset; without a leak every history gives the  *)
(* result of a fresh object and leaves earlier results alone, and with a     *)
(* leak a history of two calls exposes it (checked as the negation).         *)
EXTENDS Reuse
CONSTANTS Inputs, Leak, MaxCalls
VARIABLES cache, returned, heap, log
Compute(i) == 10 * i
Init == cache = 0 /\ returned = <<>> /\ heap = <<>> /\ log = <<>>
Call(i) ==
  LET out == IF Leak = "accumulate" THEN Compute(i) + cache ELSE IF Leak = "memo" /\ cache # 0 THEN cache ELSE Compute(i) IN
  /\ Len(log) < MaxCalls
  /\ cache' = out
  /\ returned' = Keep(returned, out)
  /\ heap' = Append(IF Leak = "alias" THEN [k \in 1..Len(heap) |-> out] ELSE heap, out)
  /\ log' = Append(log, [i |-> i, out |-> out])
Next == \E i \in Inputs : Call(i)
Spec == Init /\ [][Next]_<<cache, returned, heap, log>>
Repeatable == \A k \in 1..Len(log) : Fresh(log[k].out, Compute(log[k].i))
NothingChanges == Stable(returned, heap)
=============================================================================
