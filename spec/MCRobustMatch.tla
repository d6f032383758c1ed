----------------------------- MODULE MCRobustMatch -----------------------------
EXTENDS RobustMatch, TLC
CONSTANTS Scores, Limits, Points
VARIABLES limit, last, op
vars == <<limit, last, op>>
Init == limit = 5 /\ last = Failed /\ op = <<"reset">>
B(x) == IF x THEN 1 ELSE 0
SetLimit == \E x \in Limits : limit' = NewLimit(limit, x) /\ op' = <<"limit", x>> /\ last' = Failed
Match == op[1] # "match" /\ \E k1, k2 \in Scores, c1, c, c2 \in BOOLEAN :
  /\ k1 + k2 <= Points + Points
  /\ last' = Verdict(Points, limit, [conv |-> c1, k |-> k1], c, [conv |-> c2, k |-> k2])
  /\ op' = <<"match", k1, k2, B(c1), B(c), B(c2)>> /\ UNCHANGED limit
Next == Match \/ SetLimit
Spec == Init /\ [][Next]_vars
\* a success puts enough of the source on the target, and says how much
Honest == last.ok => (Reaches(last.k, Points, limit) \/ Fair(last.k, Points)) /\ last.k = op[1 + last.which]
\* the motion taken was found
Found == last.ok /\ last.which = 2 => op[5] = 1 /\ op[6] = 1
\* a good first answer is enough, and a good search is not needed for it
Direct == op[1] = "match" /\ op[4] = 1 /\ Good(op[2], Points) => last.ok /\ last.which = 1
InRange == limit \in 1 .. 7
================================================================================
