------------------------------- MODULE TraceLoop -------------------------------
EXTENDS LoopSearch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES nodes, edges, minD, maxD, found, l
tvars == <<nodes, edges, minD, maxD, found, l>>
\* edges: function from ids in use to [f, t, len, x, y, a, type]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
TwoPi == 6283185
AbsI(x) == IF x < 0 THEN -x ELSE x
SameAngle(x, y) == LET z == AbsI(x - y) % TwoPi IN z <= 20 \/ TwoPi - z <= 20
\* the edges recorded of the code
EdgeOK(id, o, g) == /\ o.id = id /\ o.f = g.f /\ o.t = g.t /\ AbsI(o.x - g.x * 1000) <= 1 /\ AbsI(o.y - g.y * 1000) <= 1
                    /\ SameAngle(o.a, g.a) /\ o.inf = g.inf
                    /\ (g.loop => o.loop /\ o.temp)
Same(e, ns, es) ==
  /\ e.marks = 0                                         \* no visited or used flags left
  /\ Len(e.nodes) = Len(ns)
  /\ \A i \in 1 .. Len(ns) : /\ e.nodes[i][1] = ns[i][1] * 1000 /\ e.nodes[i][2] = ns[i][2] * 1000 /\ SameAngle(e.nodes[i][3], ns[i][3])
  /\ Len(e.edges) = Cardinality(DOMAIN es)
  /\ \A i \in 1 .. Len(e.edges) : e.edges[i].id \in DOMAIN es /\ EdgeOK(e.edges[i].id, e.edges[i], es[e.edges[i].id])
EdgeSet == {[id |-> i, f |-> edges[i].f, t |-> edges[i].t, len |-> edges[i].len] : i \in DOMAIN edges}
\* what the scripted matcher answers for a pair
Answer(s, t) == [x |-> 3 * (s + 2 * t), y |-> 4 * (s + 2 * t), len |-> 5 * (s + 2 * t), a |-> 100000 * s - 70000 * t, inf |-> <<s + 1, t + 1, s + 2 * t + 3>>]
Wanted(tries, ok, n) == SelectSeq(tries, LAMBDA c : c \in {ok[i] : i \in 1 .. Len(ok)})
LoopEdge(n, c) == LET w == Answer(c, n) IN [f |-> n, t |-> c, len |-> w.len, x |-> w.x, y |-> w.y, a |-> w.a, inf |-> w.inf, loop |-> TRUE]
FoundOK(o, n, c) == LET w == Answer(c, n) IN
  o.f = n /\ o.t = c /\ AbsI(o.x - w.x * 1000) <= 1 /\ AbsI(o.y - w.y * 1000) <= 1 /\ SameAngle(o.a, w.a) /\ o.inf = w.inf
Step(e) ==
  CASE e.op = "reset" -> nodes' = << >> /\ edges' = << >> /\ minD' = 40 /\ maxD' = 30 /\ found' = << >>
    [] e.op = "node" -> nodes' = Append(nodes, e.p) /\ e.id = Len(nodes) /\ UNCHANGED <<edges, minD, maxD, found>>
    [] e.op = "edge" -> /\ e.id \notin DOMAIN edges
                        /\ edges' = Put(edges, e.id, [f |-> e.f, t |-> e.t, len |-> e.len, x |-> e.x, y |-> e.y, a |-> e.a, inf |-> e.inf, loop |-> FALSE])
                        /\ UNCHANGED <<nodes, minD, maxD, found>>
    [] e.op = "limits" -> minD' = e.min /\ maxD' = e.max /\ UNCHANGED <<nodes, edges, found>>
    [] e.op = "close" ->
         LET n == e.n  tr == [i \in 1 .. Len(e.tries) |-> e.tries[i].s]  w == Wanted(tr, e.ok, n) IN
         /\ \A i \in 1 .. Len(e.tries) :
              LET t == e.tries[i] IN /\ t.t = n /\ t.gx = 0 /\ t.gy = 0
                                     /\ t.s \in 0 .. Len(nodes) - 1 /\ SameAngle(t.ga, nodes[t.s + 1][3] - nodes[n + 1][3])
         /\ TriesOK(nodes, EdgeSet, n, minD, maxD, tr, MaxTries)
         /\ Len(e.found) = Len(w) /\ Range(w) = {e.found[i].t : i \in 1 .. Len(e.found)}
         /\ \A i \in 1 .. Len(e.found) : FoundOK(e.found[i], n, e.found[i].t)
         /\ found' = [i \in 1 .. Len(e.found) |-> <<n, e.found[i].t>>]
         /\ UNCHANGED <<nodes, edges, minD, maxD>>
    [] e.op = "attach" ->
         /\ Len(e.ids) = Len(found) /\ Distinct(e.ids) /\ Range(e.ids) \cap DOMAIN edges = {}
         /\ edges' = [i \in DOMAIN edges \cup Range(e.ids) |->
              IF i \in DOMAIN edges THEN edges[i] ELSE LET k == CHOOSE k \in 1 .. Len(e.ids) : e.ids[k] = i IN LoopEdge(found[k][1], found[k][2])]
         /\ UNCHANGED <<nodes, minD, maxD, found>>
    [] e.op = "detach" ->
         /\ edges' = [i \in DOMAIN edges \ Range(e.ids) |-> edges[i]]
         /\ UNCHANGED <<nodes, minD, maxD, found>>
    [] OTHER -> FALSE
TInit == nodes = << >> /\ edges = << >> /\ minD = 0 /\ maxD = 0 /\ found = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ Same(Trace[l], nodes', edges') /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
