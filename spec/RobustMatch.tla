------------------------------ MODULE RobustMatch ------------------------------
(***************************************************************************)
(* The verdict of robust matching.  n points of the target; a motion       *)
(* scores the number k of points of the source it puts on the target, of   *)
(* n.  limit is in eighths.                                                *)
(***************************************************************************)
EXTENDS Correlation
Good(k, n) == 10 * k > 7 * n
Fair(k, n) == 10 * k > 6 * n
Reaches(k, n, limit) == 8 * k >= limit * n
Failed == [ok |-> FALSE, which |-> 0, k |-> 0]
\* first: precise matching from the guess; search: coarse search from the guess; second: precise matching from there
Verdict(n, limit, first, search, second) ==
  LET pick(k, which) == IF Reaches(k, n, limit) THEN [ok |-> TRUE, which |-> which, k |-> k]
                        ELSE IF Fair(first.k, n) THEN [ok |-> TRUE, which |-> 1, k |-> first.k] ELSE Failed
  IN IF first.conv /\ Good(first.k, n) THEN pick(first.k, 1)
     ELSE IF ~search \/ ~second.conv THEN Failed
     ELSE pick(second.k, 2)
NewLimit(limit, x) == IF x > 0 /\ x < 8 THEN x ELSE limit
================================================================================
