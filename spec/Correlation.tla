------------------------------ MODULE Correlation ------------------------------
(***************************************************************************)
(* Scoring of point clouds against a target, and the search over           *)
(* translations.  Clouds are sequences of cells of the grid; a point in an *)
(* occupied cell counts 100, one near an occupied cell something less      *)
(* (the blur, unspecified), any other nothing.                             *)
(***************************************************************************)
EXTENDS SE2, FiniteSets
Blur == 5
Shift(p, v) == <<p[1] + v[1], p[2] + v[2]>>
Moved(c, v) == [i \in DOMAIN c |-> Shift(c[i], v)]
Cells(c) == {c[i] : i \in DOMAIN c}
Beside(T, p) == \E q \in T : Near(p[1], q[1], Blur) /\ Near(p[2], q[2], Blur)
Hits(T, c) == {i \in DOMAIN c : c[i] \in T}
\* bounds of the sum over the points
Lo(T, c) == 100 * Cardinality(Hits(T, c))
Hi(T, c) == Lo(T, c) + 99 * Cardinality({i \in DOMAIN c : c[i] \notin T /\ Beside(T, c[i])})
\* translations tried (those at the upper ends may be left out)
Tried(r) == (-r .. r - 1) \X (-r .. r - 1)
Allowed(r) == (-r .. r) \X (-r .. r)
\* a motion may be found if none tried is certainly better
Best(T, c, r) == LET most(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
                 IN most({Lo(T, Moved(c, v)) : v \in Tried(r)})
MayFind(T, c, r, v) == v \in Allowed(r) /\ Hi(T, Moved(c, v)) >= Best(T, c, r)
\* seen from the guess: quarter turns and whole cells
Guessed(g, c) == [i \in DOMAIN c |-> Shift(Turn(0, g[3], c[i]), <<g[1], g[2]>>)]
================================================================================
