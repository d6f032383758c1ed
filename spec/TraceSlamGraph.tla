----------------------------- MODULE TraceSlamGraph -----------------------------
EXTENDS SlamGraph, LoopSearch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* truth: true poses; poses: current poses <<x, y, a>> as recorded; cons: constraints in order of their ids;
\* told: how often and what the data objects were told
VARIABLES truth, poses, cons, told, noisy, minD, maxD, l
tvars == <<truth, poses, cons, told, noisy, minD, maxD, l>>
SamePlace(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ SameAngle(a[3], b[3], 20)
\* the public view of the graph
Shown(e, ps, cs, td) ==
  /\ Len(e.poses) = Len(ps) /\ \A i \in 1 .. Len(ps) : e.poses[i] = ps[i]
  /\ Len(e.cons) = Len(cs)
  /\ \A i \in 1 .. Len(cs) : e.cons[i].f = cs[i].f /\ e.cons[i].t = cs[i].t /\ SamePlace(e.cons[i].z, cs[i].m, 1)
  /\ e.data = [i \in 1 .. Len(ps) |-> i - 1] /\ e.told = td
Marked(m, c, ps) == /\ m.arrow /\ m.frame = "world" /\ Near(m.x1, ps[c.f + 1][1], 1) /\ Near(m.y1, ps[c.f + 1][2], 1)
                    /\ Near(m.x2, ps[c.t + 1][1], 1) /\ Near(m.y2, ps[c.t + 1][2], 1)
                    /\ m.rgb = (IF c.loop THEN <<0, 1, 0>> ELSE <<1, 0, 0>>)
Cons(f, t, m, len, lp) == [f |-> f, t |-> t, m |-> m, len |-> len, loop |-> lp]
Judged(e) == /\ e.f \in 0 .. Len(truth) - 1 /\ e.t \in 0 .. Len(truth) - 1
             /\ (~e.noise => IsPose(e.z, Reduced(Between(truth[e.f + 1], truth[e.t + 1])), 1))
Keep == UNCHANGED <<truth, poses, cons, told, noisy, minD, maxD>>
Dm(ps) == [i \in 1 .. Len(ps) |-> <<ps[i][1] \div 100, ps[i][2] \div 100, ps[i][3]>>]
Edges == {[id |-> i, f |-> cons[i].f, t |-> cons[i].t, len |-> cons[i].len] : i \in 1 .. Len(cons)}
RECURSIVE Sum(_, _, _, _)
Sum(r, n, i, c) == IF i = 0 THEN 0
  ELSE Sum(r, n, i - 1, c) + (IF cons[i].t = n THEN r[i][c] ELSE 0) - (IF cons[i].f = n THEN r[i][c] ELSE 0)
Balanced(r, n) == Abs(Sum(r, n, Len(r), 1)) <= 300 /\ Abs(Sum(r, n, Len(r), 2)) <= 300
Step(e) ==
  CASE e.op = "reset" -> /\ truth' = << >> /\ poses' = << >> /\ cons' = << >> /\ told' = << >> /\ noisy' = FALSE
                         /\ minD' = 20 /\ maxD' = 15
    [] e.op = "pose" -> /\ truth' = Append(truth, Pose(e.g[1], e.g[2], e.g[3], e.g[4])) /\ poses' = Append(poses, e.p)
                        /\ SamePlace(e.poses[Len(e.poses)], e.p, 1) /\ e.id = Len(truth)
                        /\ told' = Append(told, <<0, 0, 0, 0>>) /\ UNCHANGED <<cons, noisy, minD, maxD>>
    [] e.op \in {"constrain", "last"} ->
         /\ (e.op = "last" => e.f = Len(truth) - 2 /\ e.t = Len(truth) - 1)
         /\ Judged(e) /\ e.id = Len(cons) /\ cons' = Append(cons, Cons(e.f, e.t, e.z, e.len, FALSE))
         /\ noisy' = (noisy \/ e.noise) /\ UNCHANGED <<truth, poses, told, minD, maxD>>
    [] e.op = "limits" -> minD' = e.min /\ maxD' = e.max /\ UNCHANGED <<truth, poses, cons, told, noisy>>
    [] e.op = "score" -> e.got = e.s /\ Keep
    [] e.op = "close" ->
         LET tr == [i \in 1 .. Len(e.tries) |-> e.tries[i].s]
             won == SelectSeq(e.tries, LAMBDA t : t.won)
             m == Len(cons) IN
         /\ \A i \in 1 .. Len(e.tries) : e.tries[i].t = e.n /\ e.tries[i].won = (e.tries[i].s \in {e.ok[k] : k \in 1 .. Len(e.ok)})
         /\ TriesNear(Dm(poses), Edges, e.n, 20 * minD, 20 * maxD, tr, MaxTries, 12)
         /\ e.ret = (won # << >>)
         /\ Len(e.cons) = m + Len(won)
         /\ Range([i \in 1 .. Len(won) |-> won[i].s]) = {e.cons[i].t : i \in m + 1 .. Len(e.cons)}
         /\ \A i \in m + 1 .. Len(e.cons) :
              LET c == e.cons[i] IN
              /\ c.f = e.n /\ \E k \in 1 .. Len(won) : won[k].s = c.t /\ IsPose(c.z, Reduced(Between(truth[e.n + 1], truth[c.t + 1])), 1)
         /\ cons' = cons \o [i \in 1 .. Len(won) |-> LET c == e.cons[m + i] IN
                        Cons(c.f, c.t, c.z, won[CHOOSE k \in 1 .. Len(won) : won[k].s = c.t].len, TRUE)]
         /\ UNCHANGED <<truth, poses, told, noisy, minD, maxD>>
    [] e.op = "optimise" ->
         /\ Proper(cons)
         /\ poses' = e.poses /\ Len(e.poses) = Len(poses)
         /\ told' = e.told
         /\ \A i \in 1 .. Len(poses) : told'[i][1] > told[i][1] /\ <<told'[i][2], told'[i][3], told'[i][4]>> = e.poses[i]
         /\ \A i \in 1 .. Len(poses) : (i = 1 \/ i - 1 \notin Attached(cons)) => SamePlace(e.poses[i], poses[i], 1)
         /\ \A k \in Attached(cons) : e.poses[k + 1][3] \in -3141593 .. 3141593
         /\ Len(e.resid) = Len(cons)
         /\ IF noisy THEN \A k \in Attached(cons) \ {0} : Balanced(e.resid, k)
            ELSE \A k \in Attached(cons) : IsPose(e.poses[k + 1], truth[k + 1], 2)
         /\ UNCHANGED <<truth, cons, noisy, minD, maxD>>
    [] e.op = "draw" ->
         /\ Keep
         /\ Len(e.dotNodes) = Len(poses)
         /\ \A i \in 1 .. Len(poses) : e.dotNodes[i][1] = i - 1 /\ Near(e.dotNodes[i][2], poses[i][1], 1) /\ Near(e.dotNodes[i][3], poses[i][2], 1)
         /\ e.dotEdges = [i \in 1 .. Len(cons) |-> <<cons[i].f, cons[i].t>>]
         /\ Len(e.marks) = Len(cons) /\ \A i \in 1 .. Len(cons) : Marked(e.marks[i], cons[i], poses)
         /\ \A i, j \in 1 .. Len(e.marks) : e.marks[i].id = e.marks[j].id => i = j
    [] OTHER -> FALSE
TInit == truth = << >> /\ poses = << >> /\ cons = << >> /\ told = << >> /\ noisy = FALSE /\ minD = 0 /\ maxD = 0 /\ l = 1
\* heading of a pose just given may be shown wrapped
TNext == /\ l <= Len(Trace) /\ Step(Trace[l]) /\ Shown(Trace[l], poses', cons', told') /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
