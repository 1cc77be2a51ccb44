---------------------------- MODULE MCConverters ----------------------------
(* The pipeline as a state machine: a source program passes through slack,   *)
(* binary-encoding and penalty conversion; every stage satisfies its         *)
(* relation to the source, for every small program.                          *)
EXTENDS Converters
CONSTANT Wide
VARIABLES src, cur, stage
vars == <<src, cur, stage>>
Bd == IF Wide THEN {<<0, 1>>, <<-1, 2>>, <<2, 2>>, <<-3, 0>>} ELSE {<<0, 1>>, <<-1, 1>>, <<2, 2>>}
Vr(nm, t, b) == [name |-> nm, type |-> t, lb |-> b[1], ub |-> b[2]]
Qs == {<<<<0, 1>>, <<0, 0>>>>, <<<<-1, 0>>, <<2, 0>>>>} \cup (IF Wide THEN {<<<<2, -3>>, <<0, 1>>>>} ELSE {})
Ls == {<<1, -2>>, <<0, 1>>}
Cs == {<<1, 1>>, <<-1, 2>>, <<0, -1>>}
Init == /\ \E b \in Bd, s \in {1, -1}, l \in Ls, m \in Qs, c1 \in Cs, s1 \in {"LE", "GE", "EQ"}, r \in {-1, 0, 2},
              c2 \in {<<2, -1>>}, s2 \in (IF Wide THEN {"LE", "EQ"} ELSE {"GE"}) :
             src = [S |-> 1, name |-> "", status |-> "VALID",
                    vars |-> <<Vr("a", "I", b), Vr("b", "B", <<0, 1>>)>>, sense |-> s, const |-> 1,
                    lin |-> l, quad |-> m,
                    lc |-> <<[name |-> "c0", lin |-> c1, sense |-> s1, rhs |-> r], [name |-> "c1", lin |-> c2, sense |-> s2, rhs |-> 1]>>,
                    qc |-> <<>>]
        /\ cur = src /\ stage = "source"
Slack == stage = "source" /\ cur' = RefSlack(cur) /\ stage' = "equalities" /\ UNCHANGED src
Binary == stage = "equalities" /\ cur' = RefBinary(cur) /\ stage' = "binary" /\ UNCHANGED src
Penalise == stage = "binary" /\ cur' = RefPenalty(cur, RefPenaltyFactor(cur)) /\ stage' = "qubo" /\ UNCHANGED src
Next == Slack \/ Binary \/ Penalise
Spec == Init /\ [][Next]_vars
\* decoding of the whole pipeline
SlackStage == RefSlack(src)
Dec == LET dc == RefDec(SlackStage) IN
   [base |-> SubSeq(dc.base, 1, 2), cols |-> [k \in 1..Len(dc.cols) |-> SubSeq(dc.cols[k], 1, 2)]]
SlackRel == stage = "equalities" =>
   /\ AllEqualities(src, cur) /\ VarsKept(src, cur) /\ SlackPrivate(src, cur) /\ ObjectiveWithoutSlack(src, cur) /\ EqualitiesKept(src, cur)
   /\ \A x \in Points(src) : SlackOK(src, cur, x, 1)
BinaryRel == stage = "binary" =>
   /\ EncodingOK(SlackStage, cur, RefDec(SlackStage))
   /\ PolyKept(SlackStage, cur, RefDec(SlackStage)) /\ ConsKept(SlackStage, cur, RefDec(SlackStage))
PenaltyRel == stage = "binary" => Dominates(cur, RefPenaltyFactor(cur))
QuboRel == stage = "qubo" => AllBinary(cur) /\ cur.lc = <<>> /\ QuboOK(src, cur, Dec) /\ NeverBetter(src, cur, Dec)
=============================================================================
