----------------------------- MODULE PoseGraph -----------------------------
(***************************************************************************)
(* The pose graph: an append-only list of nodes, a slotted list of edges   *)
(* whose ids are reused after removal, and the adjacency lists the nodes   *)
(* keep.  Ids are 0-based as in the code, so node (edge) i is element i+1. *)
(* Adjacency is explicit state, as in the code; that it always equals what *)
(* the live edges say is an invariant (AdjacencyExact), not a definition.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES nodes,   \* Seq([pose, data, vis])
          edges,   \* Seq(edge record), dead slots hold Gone
          outE,    \* Seq(SUBSET edge ids), by node
          inE
gvars == <<nodes, edges, outE, inE>>

Gone == [live |-> FALSE]
MkEdge(f, t, tr, inf) ==
  [live |-> TRUE, from |-> f, to |-> t, tr |-> tr, inf |-> inf,
   st |-> 3, ty |-> 0, used |-> FALSE]      \* st 3 = CONSTRUCTED, ty 0 = ODOM

NodeIds == 0 .. Len(nodes) - 1
SlotIds == 0 .. Len(edges) - 1
Edge(i) == edges[i + 1]
LiveIds == {i \in SlotIds : Edge(i).live}
DeadIds == SlotIds \ LiveIds
\* ids of removed edges are used up before a new slot is opened
FreshIds == IF DeadIds # {} THEN DeadIds ELSE {Len(edges)}

GraphInit == nodes = << >> /\ edges = << >> /\ outE = << >> /\ inE = << >>

AddNode(pose, data, id) ==
  /\ id = Len(nodes)
  /\ nodes' = Append(nodes, [pose |-> pose, data |-> data, vis |-> FALSE])
  /\ outE' = Append(outE, {}) /\ inE' = Append(inE, {})
  /\ UNCHANGED edges

AddEdge(f, t, tr, inf, id) ==
  /\ f \in NodeIds /\ t \in NodeIds /\ id \in FreshIds
  /\ edges' = IF id = Len(edges) THEN Append(edges, MkEdge(f, t, tr, inf))
              ELSE [edges EXCEPT ![id + 1] = MkEdge(f, t, tr, inf)]
  /\ outE' = [outE EXCEPT ![f + 1] = @ \cup {id}]
  /\ inE' = [inE EXCEPT ![t + 1] = @ \cup {id}]
  /\ UNCHANGED nodes

RemoveEdge(id, ret) ==
  IF id \in LiveIds
  THEN /\ ret = TRUE
       /\ edges' = [edges EXCEPT ![id + 1] = Gone]
       /\ outE' = [outE EXCEPT ![Edge(id).from + 1] = @ \ {id}]
       /\ inE' = [inE EXCEPT ![Edge(id).to + 1] = @ \ {id}]
       /\ UNCHANGED nodes
  ELSE ret = FALSE /\ UNCHANGED gvars

\* lookups change nothing and either yield the element or raise out_of_range
GetNode(id, thrown) == thrown = (id \notin NodeIds) /\ UNCHANGED gvars
GetEdge(id, thrown) == thrown = (id \notin LiveIds) /\ UNCHANGED gvars

NormQ(q) == LET m == q % 4 IN IF m = 3 THEN {-1} ELSE IF m = 2 THEN {2, -2} ELSE {m}
SetPose(n, p) == /\ n \in NodeIds /\ nodes' = [nodes EXCEPT ![n + 1].pose = p]
                 /\ UNCHANGED <<edges, outE, inE>>
\* result heading in quarter turns, normalised to (-pi,pi]
AddToPose(n, d, q) ==
  /\ n \in NodeIds
  /\ q \in NormQ(nodes[n + 1].pose[3] + d[3])
  /\ nodes' = [nodes EXCEPT ![n + 1].pose = <<@[1] + d[1], @[2] + d[2], q>>]
  /\ UNCHANGED <<edges, outE, inE>>
SetData(n, d) == /\ n \in NodeIds /\ nodes' = [nodes EXCEPT ![n + 1].data = d]
                 /\ UNCHANGED <<edges, outE, inE>>
SetVisited(n, b) == /\ n \in NodeIds /\ nodes' = [nodes EXCEPT ![n + 1].vis = b]
                    /\ UNCHANGED <<edges, outE, inE>>
SetState(e, s) == /\ e \in LiveIds /\ edges' = [edges EXCEPT ![e + 1].st = s]
                  /\ UNCHANGED <<nodes, outE, inE>>
SetType(e, t) == /\ e \in LiveIds /\ edges' = [edges EXCEPT ![e + 1].ty = t]
                 /\ UNCHANGED <<nodes, outE, inE>>
SetUsed(e, b) == /\ e \in LiveIds /\ edges' = [edges EXCEPT ![e + 1].used = b]
                 /\ UNCHANGED <<nodes, outE, inE>>

(****************************** properties ********************************)
\* increasing sequence of a set of ids = what an iteration must yield
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})
NodeIteration == [i \in 1 .. Len(nodes) |-> i - 1]
EdgeIteration == SelectSeq([i \in 1 .. Len(edges) |-> i - 1], LAMBDA i : Edge(i).live)

EdgeCount == Cardinality(LiveIds)
NodeCount == Len(nodes)

AdjacencyExact ==
  /\ Len(outE) = Len(nodes) /\ Len(inE) = Len(nodes)
  /\ \A n \in NodeIds : /\ outE[n + 1] = {e \in LiveIds : Edge(e).from = n}
                        /\ inE[n + 1] = {e \in LiveIds : Edge(e).to = n}
EndpointsExist == \A e \in LiveIds : Edge(e).from \in NodeIds /\ Edge(e).to \in NodeIds
IterationExact == EdgeIteration = SortedSeq(LiveIds) /\ Len(EdgeIteration) = EdgeCount
\* a live edge keeps its id, endpoints and constraint until it is removed
EdgesStable == [][\A e \in LiveIds : \/ e \notin {i \in 0 .. Len(edges') - 1 : edges'[i + 1].live}
                                     \/ /\ edges'[e + 1].from = Edge(e).from
                                        /\ edges'[e + 1].to = Edge(e).to
                                        /\ edges'[e + 1].tr = Edge(e).tr]_gvars
NodesStable == [][/\ Len(nodes') >= Len(nodes)
                  /\ Len(edges') >= Len(edges)
                  /\ Len(edges') > Len(edges) => DeadIds = {}]_gvars
=============================================================================
