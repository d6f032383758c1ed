------------------------------- MODULE SlamGraph -------------------------------
(***************************************************************************)
(* The back end: poses and constraints, and what optimising them means.    *)
(* The true pose of every node is known to the specification; constraints  *)
(* without noise are the motions between true poses.                       *)
(***************************************************************************)
EXTENDS SE2, FiniteSets
\* cons: sequence of records with f, t (node ids from 0)
RECURSIVE Closure(_, _)
Closure(cons, s) == LET n == s \cup {cons[i].t : i \in {i \in DOMAIN cons : cons[i].f \in s}} \cup {cons[i].f : i \in {i \in DOMAIN cons : cons[i].t \in s}}
                    IN IF n = s THEN s ELSE Closure(cons, n)
Attached(cons) == Closure(cons, {0})
Touched(cons) == {cons[i].t : i \in DOMAIN cons} \cup {cons[i].f : i \in DOMAIN cons}
\* everything that is constrained hangs together with the first pose
Proper(cons) == Touched(cons) \subseteq Attached(cons)
\* poses that satisfy the constraints, following them from the first pose
RECURSIVE Solve(_, _)
Solve(cons, p) ==
  LET fwd == {i \in DOMAIN cons : cons[i].f \in DOMAIN p /\ cons[i].t \notin DOMAIN p}
      bwd == {i \in DOMAIN cons : cons[i].t \in DOMAIN p /\ cons[i].f \notin DOMAIN p}
  IN IF fwd # {} THEN LET c == cons[CHOOSE i \in fwd : TRUE] IN
                      Solve(cons, [k \in DOMAIN p \cup {c.t} |-> IF k = c.t THEN Reduced(Mul(p[c.f], c.z)) ELSE p[k]])
     ELSE IF bwd # {} THEN LET c == cons[CHOOSE i \in bwd : TRUE] IN
                      Solve(cons, [k \in DOMAIN p \cup {c.f} |-> IF k = c.f THEN Reduced(Mul(p[c.t], Inv(c.z))) ELSE p[k]])
     ELSE p
Satisfied(cons, p) == \A i \in DOMAIN cons : SamePose(Between(p[cons[i].f], p[cons[i].t]), cons[i].z)
===============================================================================
