---------------------------- MODULE MCPoseGraph ----------------------------
(* Exhaustive exploration of the pose graph within small bounds.  `op` is  *)
(* the last call with its arguments; the harness replays it from the dump. *)
EXTENDS PoseGraph
CONSTANTS MaxNodes, MaxSlots, Attrs   \* Attrs: explore attribute setters too
VARIABLE op
vars == <<nodes, edges, outE, inE, op>>

Init == GraphInit /\ op = <<"reset">>
DoAddNode == /\ Len(nodes) < MaxNodes
             /\ AddNode(<<Len(nodes), 0, 0>>, Len(nodes), Len(nodes))
             /\ op' = <<"addNode", Len(nodes), 0, 0, Len(nodes)>>
\* the specification allows any free id; the harness maps model ids to the ids the code chose
DoAddEdge == \E f, t \in NodeIds, id \in FreshIds :
             /\ id < MaxSlots
             /\ AddEdge(f, t, <<id, f, 0>>, id + 1, id)
             /\ op' = <<"addEdge", f, t, id, f, 0, id + 1, id>>
DoRemove == \E id \in 0 .. Len(edges) + 1 :
             /\ RemoveEdge(id, id \in LiveIds) /\ op' = <<"removeEdge", id>>
DoGetEdge == \E id \in 0 .. Len(edges) + 1 :
             GetEdge(id, id \notin LiveIds) /\ op' = <<"getEdge", id>>
DoGetNode == \E id \in 0 .. Len(nodes) + 1 :
             GetNode(id, id \notin NodeIds) /\ op' = <<"getNode", id>>
DoAttr == /\ Attrs
          /\ \/ \E n \in NodeIds : \E b \in BOOLEAN : SetVisited(n, b) /\ op' = <<"setVisited", n, IF b THEN 1 ELSE 0>>
             \/ \E e \in LiveIds : \E b \in BOOLEAN : SetUsed(e, b) /\ op' = <<"setUsed", e, IF b THEN 1 ELSE 0>>
             \/ \E e \in LiveIds : \E s \in 0 .. 3 : SetState(e, s) /\ op' = <<"setState", e, s>>
             \/ \E e \in LiveIds : \E s \in 0 .. 1 : SetType(e, s) /\ op' = <<"setType", e, s>>
Next == DoAddNode \/ DoAddEdge \/ DoRemove \/ DoGetEdge \/ DoGetNode \/ DoAttr
Spec == Init /\ [][Next]_vars
=============================================================================
