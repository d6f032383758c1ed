------------------------------ MODULE LoopSearch ------------------------------
(***************************************************************************)
(* Search for loop closures in a pose graph: which pairs of poses may and  *)
(* which must be handed to the scan matcher.                               *)
(* Nodes are <<x, y, a>> (whole metres, microradians) with the ids         *)
(* 0 .. Len - 1; edges are records [f, t, len].  minD and maxD are the     *)
(* thresholds in half metres.                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
MaxTries == 50
Sq(x) == x * x
Far2(nodes, i, j) == Sq(nodes[i + 1][1] - nodes[j + 1][1]) + Sq(nodes[i + 1][2] - nodes[j + 1][2])
\* all ways back from a node against the direction of the edges, without passing a node twice:
\* pairs <<node, travelled length>>
RECURSIVE Back(_, _, _, _)
Back(edges, n, seen, len) ==
  LET next == {e \in edges : e.t = n /\ e.f \notin seen} IN
  {<<e.f, len + e.len>> : e \in next} \cup UNION {Back(edges, e.f, seen \cup {e.f}, len + e.len) : e \in next}
Ways(edges, n) == Back(edges, n, {n}, 0)
\* a pair on the very threshold may be taken or left
Candidates(nodes, ways, n, minD, maxD) == {w[1] : w \in {w \in ways : 2 * w[2] >= minD /\ 4 * Far2(nodes, n, w[1]) <= Sq(maxD)}}
Certain(nodes, ways, n, minD, maxD) ==
  {c \in Candidates(nodes, ways, n, minD, maxD) : 4 * Far2(nodes, n, c) < Sq(maxD) /\ \A w \in ways : w[1] = c => 2 * w[2] > minD}
Distinct(s) == \A i, j \in 1 .. Len(s) : s[i] = s[j] => i = j
Range(s) == {s[i] : i \in 1 .. Len(s)}
\* slack: for lengths and distances that were rounded
TriesNear(nodes, edges, n, minD, maxD, tries, limit, slack) ==
  LET ways == Ways(edges, n) IN
  /\ Distinct(tries) /\ Len(tries) <= limit
  /\ Range(tries) \subseteq Candidates(nodes, ways, n, minD - slack, maxD + slack)
  /\ \/ maxD > slack /\ Certain(nodes, ways, n, minD + slack, maxD - slack) \subseteq Range(tries)
     \/ maxD <= slack \/ Len(tries) = limit
TriesOK(nodes, edges, n, minD, maxD, tries, limit) == TriesNear(nodes, edges, n, minD, maxD, tries, limit, 0)
===============================================================================
