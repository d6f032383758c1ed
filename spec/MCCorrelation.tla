----------------------------- MODULE MCCorrelation -----------------------------
EXTENDS Correlation, TLC
CONSTANTS Width, Height, Shifts, R
VARIABLES target, phase, op
vars == <<target, phase, op>>
Area == (-Width .. 0) \X (0 .. Height)
Order(S) == CHOOSE f \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]
Clouds == {Order(S) : S \in {S \in SUBSET Area : Cardinality(S) \in {1, 2}}}
Init == target = << >> /\ phase = "idle" /\ op = <<"reset">>
Enter == phase = "idle" /\ \E c \in Clouds : target' = c /\ phase' = "set" /\ op' = <<"table", c>>
Score == phase = "set" /\ \E c \in Clouds, v \in Shifts : op' = <<"score", c, v>> /\ phase' = "done" /\ UNCHANGED target
Search == phase = "set" /\ \E c \in Clouds : op' = <<"search", c, R>> /\ phase' = "done" /\ UNCHANGED target
Again == phase = "done" /\ target' = << >> /\ phase' = "idle" /\ op' = <<"nop">>
Next == Enter \/ Score \/ Search \/ Again
Spec == Init /\ [][Next]_vars
T == Cells(target)
\* a target matches itself fully, and nothing of distinct cells matches better
Full == phase = "set" => Lo(T, target) = 100 * Len(target) /\ Hi(T, target) = Lo(T, target)
NoBetter == op[1] = "score" => LET c == Moved(op[2], op[3]) IN Lo(T, c) <= 100 * Len(target) /\ Lo(T, c) <= Hi(T, c)
\* a shifted copy is found again, and only where it fits
Recovered == op[1] = "search" =>
  LET c == op[2]
      fits == {v \in Tried(R) : Cells(Moved(c, v)) \subseteq T}
  IN /\ \E v \in Tried(R) : MayFind(T, c, R, v)
     /\ fits # {} => \A v \in Allowed(R) : MayFind(T, c, R, v) => Cells(Moved(c, v)) \subseteq T
================================================================================
