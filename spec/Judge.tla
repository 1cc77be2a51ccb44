-------------------------------- MODULE Judge --------------------------------
(* Skeleton of the trace specifications.  The recorded cases come from the   *)
(* real code; each is an initial state.  A case is a history of events;      *)
(* the abstract state st evolves by the specification's own step, and every  *)
(* event is judged against the clauses of the property.                      *)
EXTENDS Num, Json, IOUtils
CONSTANTS Start(_),         \* abstract state before the first event of a case
          Advance(_, _),    \* abstract state after an event
          Verdict(_, _)     \* set of the names of the violated clauses
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st, bad
jvars == <<case, pos, st, bad>>
Cl(name, holds) == IF holds THEN {} ELSE {name}
\* evaluate the second set only if the first is empty
Then(a, b) == IF a # {} THEN a ELSE b

JInit == /\ case \in 1..Len(Cases) /\ pos = 0 /\ bad = {} /\ st = <<>>
JCrash == /\ Cases[case].kind = "crash" /\ pos = 0 /\ bad = {}
          /\ bad' = {"unexpected failure"} /\ UNCHANGED <<case, pos, st>>
JEvent == /\ Cases[case].kind # "crash" /\ bad = {} /\ pos < Len(Cases[case].events)
          /\ LET ev == Cases[case].events[pos + 1]
                 cur == IF pos = 0 THEN Start(Cases[case]) ELSE st
                 v == Verdict(cur, ev)
             IN bad' = v /\ st' = (IF v = {} THEN Advance(cur, ev) ELSE cur)
          /\ pos' = pos + 1 /\ UNCHANGED case
JNext == JCrash \/ JEvent
JSpec == JInit /\ [][JNext]_jvars
JOk == bad # {} => PrintT(<<"BAD", case, bad>>) /\ FALSE
=============================================================================
