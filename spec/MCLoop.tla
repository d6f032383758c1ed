-------------------------------- MODULE MCLoop --------------------------------
(***************************************************************************)
(* Histories of a graph with a loop detector, for replay: nodes and edges  *)
(* are added, closures are sought from any node with any outcome of the    *)
(* matching, and the closures found are added and removed again.           *)
(***************************************************************************)
EXTENDS LoopSearch
CONSTANTS Poses, Lens, MaxEdges, MaxNodes, Oks
VARIABLES nodes, edges, found, loops, op
vars == <<nodes, edges, found, loops, op>>
Init == nodes = << >> /\ edges = {} /\ found = FALSE /\ loops = 0 /\ op = <<"reset">>
Ids == 0 .. Len(nodes) - 1
AddNode == /\ Len(nodes) < MaxNodes
           /\ \E p \in Poses : nodes' = Append(nodes, p) /\ op' = <<"node", p[1], p[2], p[3]>>
           /\ UNCHANGED <<edges, found, loops>>
AddEdge == /\ Cardinality(edges) < MaxEdges
           /\ \E f, t \in Ids, len \in Lens :
                /\ f # t /\ (\A e \in edges : <<e.f, e.t>> # <<f, t>>)
                /\ edges' = edges \cup {[f |-> f, t |-> t, len |-> len]} /\ op' = <<"edge", f, t, len>>
           /\ UNCHANGED <<nodes, found, loops>>
Close == /\ nodes # << >>
         /\ \E n \in Ids, ok \in Oks : op' = <<"close", n, ok>> /\ found' = TRUE
         /\ UNCHANGED <<nodes, edges, loops>>
Attach == found /\ loops = 0 /\ loops' = 1 /\ found' = FALSE /\ op' = <<"attach">> /\ UNCHANGED <<nodes, edges>>
Detach == loops = 1 /\ loops' = 0 /\ op' = <<"detach">> /\ UNCHANGED <<nodes, edges, found>>
Next == AddNode \/ AddEdge \/ Close \/ Attach \/ Detach
Spec == Init /\ [][Next]_vars
Small == Len(nodes) <= MaxNodes
===============================================================================
