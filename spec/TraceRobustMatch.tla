---------------------------- MODULE TraceRobustMatch ----------------------------
EXTENDS RobustMatch, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES limit, l
tvars == <<limit, l>>
Yes(x) == x = TRUE
At(g, c) == Guessed(g, c)
Hit(e, g) == Cardinality(Hits(Cells(e.target), At(g, e.source)))
Exactly(e, g) == Lo(Cells(e.target), At(g, e.source)) = Hi(Cells(e.target), At(g, e.source))
Angle3(k) == Angle(0, k)
IsAt(o, g) == Near(o[1], 1000 * g[1], 2) /\ Near(o[2], 1000 * g[2], 2) /\ SameAngle(o[3], Angle3(g[3]), 10)
Given(e, c) == e.conv[c]
Result(e) ==
  LET n == Len(e.target)
      v == Verdict(n, limit, [conv |-> e.conv[1], k |-> Hit(e, e.x1)], e.conv[2], [conv |-> e.conv[3], k |-> Hit(e, e.x2)])
      x == IF v.which = 1 THEN e.x1 ELSE e.x2
      c == TLCEval(At(x, e.source))
  IN /\ Assert(Exactly(e, e.x1) /\ Exactly(e, e.x2), "unclear scores")
     /\ e.wrong = 0                       \* matchers are shown these clouds, and asked from the guess and the found motion
     /\ e.ok = v.ok
     /\ v.ok => /\ Near(e.score * n, v.k * 10000, n)
                /\ IsAt(e.final, x)
                /\ e.op = "match" => e.inform = <<5000, 5000, 10000>>
                /\ e.op = "align" => /\ Len(e.out) = Len(c)
                                     /\ \A i \in DOMAIN c : \E j \in DOMAIN e.out : Near(e.out[j][1], 1000 * c[i][1], 20) /\ Near(e.out[j][2], 1000 * c[i][2], 20)
Take(e) ==
  CASE e.op = "reset" -> limit' = 5
    [] e.op = "limit" -> limit' = NewLimit(limit, e.x) /\ e.refused = (e.x <= 0 \/ e.x >= 8)
    [] e.op \in {"match", "align"} -> Yes(Result(e)) /\ UNCHANGED limit
    [] OTHER -> FALSE
TInit == limit = 5 /\ l = 1
TNext == l <= Len(Trace) /\ Take(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=================================================================================
