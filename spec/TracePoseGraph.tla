-------------------------- MODULE TracePoseGraph --------------------------
(* Accepts exactly the recorded executions of slamuk::Graph that are       *)
(* behaviours of PoseGraph.  One event = one public call plus a projection *)
(* of the whole graph taken through the public accessors.                  *)
EXTENDS PoseGraph, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* which observations this check compares: "ids", "adj", "iter"
Aspect == IOEnv.ASPECT
VARIABLE l
tvars == <<nodes, edges, outE, inE, l>>

ToSet(s) == {s[i] : i \in 1 .. Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

\* full projection after the call: nodes and edges found by id
ObsIds(e) ==
  /\ e.nc = Len(nodes') /\ e.ec = Cardinality({i \in 1 .. Len(edges') : edges'[i].live})
  /\ Len(e.nodes) = Len(nodes')
  /\ \A i \in 1 .. Len(nodes') :
       /\ e.nodes[i].id = i - 1
       /\ e.nodes[i].pose = nodes'[i].pose
       /\ e.nodes[i].data = nodes'[i].data
       /\ e.nodes[i].vis = nodes'[i].vis
  /\ Len(e.edges) >= Len(edges')
  /\ \A i \in 1 .. Len(e.edges) :
       IF i <= Len(edges') /\ edges'[i].live
       THEN /\ e.edges[i].id = i - 1
            /\ [e.edges[i] EXCEPT !.id = 0] =
               [live |-> TRUE, id |-> 0, from |-> edges'[i].from, to |-> edges'[i].to,
                tr |-> edges'[i].tr, inf |-> edges'[i].inf, st |-> edges'[i].st,
                ty |-> edges'[i].ty, used |-> edges'[i].used]
       ELSE e.edges[i].live = FALSE
ObsAdj(e) ==
  /\ Len(e.adj) = Len(nodes')
  /\ \A i \in 1 .. Len(nodes') :
       /\ NoDup(e.adj[i].out) /\ ToSet(e.adj[i].out) = outE'[i]
       /\ NoDup(e.adj[i].in) /\ ToSet(e.adj[i].in) = inE'[i]
\* every flavour of iterator: six recorded sequences
ObsIter(e) ==
  LET ns == [i \in 1 .. Len(nodes') |-> i - 1]
      es == SelectSeq([i \in 1 .. Len(edges') |-> i - 1], LAMBDA i : edges'[i + 1].live)
  IN /\ \A i \in 1 .. Len(e.nit) : e.nit[i] = ns
     /\ \A i \in 1 .. Len(e.eit) : e.eit[i] = es
     /\ Len(e.nit) = 5 /\ Len(e.eit) = 4
Obs(e) == CASE Aspect = "ids" -> ObsIds(e) [] Aspect = "adj" -> ObsAdj(e) [] Aspect = "iter" -> ObsIter(e)

Step(e) ==
  CASE e.op = "reset" -> nodes' = << >> /\ edges' = << >> /\ outE' = << >> /\ inE' = << >>
    [] e.op = "addNode" -> AddNode(e.pose, e.data, e.id)
    [] e.op = "addEdge" -> AddEdge(e.from, e.to, e.tr, e.inf, e.id)
    [] e.op = "removeEdge" -> RemoveEdge(e.id, e.ret)
    [] e.op = "getEdge" -> GetEdge(e.id, e.thrown)
    [] e.op = "getNode" -> e.same /\ GetNode(e.id, e.thrown)
    [] e.op = "setPose" -> SetPose(e.id, e.pose)
    [] e.op = "addToPose" -> AddToPose(e.id, e.d, e.q)
    [] e.op = "setData" -> SetData(e.id, e.data)
    [] e.op = "setVisited" -> SetVisited(e.id, e.v)
    [] e.op = "setState" -> SetState(e.id, e.v)
    [] e.op = "setType" -> SetType(e.id, e.v)
    [] e.op = "setUsed" -> SetUsed(e.id, e.v)
    [] OTHER -> FALSE

TInit == GraphInit /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ Obs(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
