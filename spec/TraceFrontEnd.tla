---------------------------- MODULE TraceFrontEnd ----------------------------
EXTENDS FrontEnd, Json, IOUtils, FiniteSets, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* seen: spots of every scan, in the frame of the sensor; known: node of every frame the loop matcher met (0: unclear)
VARIABLES s, gen, rad, seen, stamp, bent, known, loops, l
tvars == <<s, gen, rad, seen, stamp, bent, known, loops, l>>
G(v) == Pose(v[1], v[2], v[3], v[4])
\* in tenths of the unit
Tenths(a) == <<(a.x * 10) \div P5(a.d), (a.y * 10) \div P5(a.d)>>
By(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
Spots(a, id) == {Tenths(Mul(a, Pose(seen[id][i][1], seen[id][i][2], 0, 0))) : i \in DOMAIN seen[id]}
Rays(a, id) == {<<Tenths(a), q>> : q \in Spots(a, id)}
\* q keeps 60 cm from the line of sight r; lengths are only estimated from above
Clear(q, r) ==
  LET ax == q[1] \div 10 - r[1][1] \div 10
      ay == q[2] \div 10 - r[1][2] \div 10
      bx == r[2][1] \div 10 - r[1][1] \div 10
      by == r[2][2] \div 10 - r[1][2] \div 10
      len == Max(Abs(bx), Abs(by)) + Min(Abs(bx), Abs(by)) \div 2 + 1
      dot == ax * bx + ay * by
      room == 14
  IN \/ Abs(ax * by - ay * bx) > room * len
     \/ dot < -room * len
     \/ dot > len * len + room * len
Among(m, places) == \/ \E q \in places : By(m, q, 10)
                    \/ \E q, r \in places : q # r /\ By(m, q, 70) /\ By(m, r, 70)
\* means: what the map holds; places: what was seen; due: places that must be held if no ray crossed them
Kept(means, due, rays) ==
  \A q \in due : (\A r \in rays : By(q, r[2], 10) \/ Clear(q, r)) => \E i \in DOMAIN means : By(means[i], q, 10)
Holds(means, places, due, rays) == (\A i \in DOMAIN means : Among(means[i], places)) /\ Kept(means, due, rays)
\* ---- the window
WinPlaces(t) == UNION {Spots(t.win[i].m, t.win[i].id) : i \in DOMAIN t.win}
WinRays(t) == UNION {Rays(t.win[i].m, t.win[i].id) : i \in DOMAIN t.win}
Within(q, a) == By(q, Tenths(a), 10 * rad - 100)
WinDue(t) == {q \in WinPlaces(t) : \A i \in DOMAIN t.win : Within(q, t.win[i].m)}
Window(t, means) == Holds(means, TLCEval(WinPlaces(t)), TLCEval(WinDue(t)), TLCEval(WinRays(t)))
\* ---- the map
FramePlaces(f) == UNION {Spots(Mul(f.p, f.scans[k].d), f.scans[k].id) : k \in DOMAIN f.scans}
\* in a frame lines of sight start where the scans were taken, in the map where the frames are
FrameRays(f) == UNION {Rays(Reduced(Mul(f.p, f.scans[k].d)), f.scans[k].id) : k \in DOMAIN f.scans}
OriginRays(f) == {<<Tenths(f.p), q>> : q \in FramePlaces(f)}
Range(f) == {f[i] : i \in DOMAIN f}
WholeMap(t, means) ==
  LET places == TLCEval([i \in DOMAIN t.nodes |-> FramePlaces(t.nodes[i])])
      origin == TLCEval([i \in DOMAIN t.nodes |-> OriginRays(t.nodes[i])])
  IN /\ \A i \in DOMAIN means : Among(means[i], UNION Range(places))
     /\ \A i \in DOMAIN t.nodes :
          Kept(means, places[i], TLCEval(FrameRays(t.nodes[i]) \cup UNION {origin[j] : j \in DOMAIN t.nodes \ {i}}))
InFrame(f) == UNION {Spots(f.scans[k].d, f.scans[k].id) : k \in DOMAIN f.scans}
\* after optimisations only where things are within their frames is known
BentMap(e) ==
  ({known[k] : k \in DOMAIN known} = DOMAIN s.nodes) =>
    \A j \in DOMAIN e.map :
      \/ \E k \in DOMAIN known : \E q \in InFrame(s.nodes[known[k]]) : By(e.known[k].map[j], q, 10)
      \/ \E a, b \in UNION {{<<k, q>> : q \in InFrame(s.nodes[known[k]])} : k \in DOMAIN known} :
           a # b /\ By(e.known[a[1]].map[j], a[2], 70) /\ By(e.known[b[1]].map[j], b[2], 70)
Told(o, a, small) == IsPose([o EXCEPT ![3] = @ - small], a, 1)
Corner(ps) == <<CHOOSE x \in {ps[i][1] : i \in DOMAIN ps} : \A i \in DOMAIN ps : x <= ps[i][1],
                CHOOSE y \in {ps[i][2] : i \in DOMAIN ps} : \A i \in DOMAIN ps : y <= ps[i][2]>>
SameShape(as, bs) == /\ Len(as) = Len(bs)
  /\ Len(as) > 0 => LET a == Corner(as)
                        b == Corner(bs)
                    IN \A i \in DOMAIN as : \E j \in DOMAIN bs : By(<<as[i][1] - a[1], as[i][2] - a[2]>>, <<bs[j][1] - b[1], bs[j][2] - b[2]>>, 2)
\* (TLC would try every way to satisfy a disjunction of an action)
Yes(x) == x = TRUE
Matching(e, o, small) ==
  /\ Told(e.guess, Guess(s, o), small)
  /\ LET places == TLCEval(WinPlaces(s)) IN \A i \in DOMAIN e.target : Among(e.target[i], places)
  /\ LET places == {<<10 * e.seen[k][1], 10 * e.seen[k][2]>> : k \in DOMAIN e.seen}
     IN /\ \A i \in DOMAIN e.source : Among(e.source[i], places)
        /\ \A q \in places : \E i \in DOMAIN e.source : By(e.source[i], q, 70)
Update(e) ==
  LET o == G(e.o)
      id == Len(seen) + 1
      u == With(s, o)
      small == s.small + e.r
      out == [hit |-> e.hit, m |-> G(e.m)]
      used == s.on /\ (Enough(u, small) \/ (Close(u, small) /\ e.calls > 0))
      t == IF ~s.on THEN FrontStart(s, id) ELSE IF used THEN FrontMatch(s, o, out, id, gen) ELSE FrontWait(s, o, e.r)
  IN /\ e.calls = (IF used THEN 1 ELSE 0)
     /\ s' = t /\ seen' = Append(seen, e.seen)
     /\ stamp' = (IF ~s.on \/ (used /\ e.hit) THEN e.time ELSE stamp)
     /\ bent' = e.bent /\ Yes(e.bent => bent \/ e.bending)
     /\ Yes(IF ~e.bent THEN Told(e.ret, ShownPose(t), t.small)
            ELSE e.bending \/ s.small # 0 \/ Told(e.rel, Reduced(Between(ShownPose(s), ShownPose(t))), t.small - s.small))
     \* the matcher starts from where odometry puts the robot in the window, and is shown the window and the scan
     /\ Yes(used => Matching(e, o, small))
     \* the robot stays where it is seen from the last finished frame
     /\ Yes(e.tries > 0 => Told(e.from, t.last, 0))
     \* frames the loop matcher met: the last one is always the new one
     /\ known' = known \o [i \in 1 .. e.met |->
          IF i = 1 THEN Len(t.nodes)
          ELSE LET rest == (1 .. Len(t.nodes) - 1) \ {known[k] : k \in DOMAIN known}
               IN IF e.met = 2 /\ Cardinality(rest) = 1 THEN CHOOSE x \in rest : TRUE ELSE 0]
     /\ Yes(e.tries > 0 => Len(t.nodes) > Len(s.nodes))
     /\ loops' = (loops \/ (e.tries > 0 /\ e.mode > 0))
     /\ UNCHANGED <<gen, rad>>
Judge(e) ==
  /\ e.frame /\ e.square
  /\ s.on => Window(s, e.win)
  /\ SameShape(e.cells, e.win)
  /\ e.stamp = stamp /\ e.seq = s.matched
  /\ e.on = e.ow * e.oh /\ (e.map # << >> => e.on > 0)
  /\ Len(e.known) = Len(known)
  /\ IF bent THEN BentMap(e)
     ELSE /\ WholeMap(s, e.map)
          /\ \A k \in DOMAIN known : IF known[k] = 0 THEN \E i \in DOMAIN s.nodes : IsPose(e.known[k].p, s.nodes[i].p, 1)
                                     ELSE IsPose(e.known[k].p, s.nodes[known[k]].p, 1)
          /\ LET ends(i) == Tenths(s.nodes[i].p) IN
             /\ \A i \in 2 .. Len(s.nodes) : \E k \in DOMAIN e.marks :
                  By(<<e.marks[k][1], e.marks[k][2]>>, ends(i - 1), 2) /\ By(<<e.marks[k][3], e.marks[k][4]>>, ends(i), 2)
             /\ \A k \in DOMAIN e.marks : \E i, j \in DOMAIN s.nodes :
                  By(<<e.marks[k][1], e.marks[k][2]>>, ends(i), 2) /\ By(<<e.marks[k][3], e.marks[k][4]>>, ends(j), 2)
  /\ (~loops => Len(e.marks) = Max(Len(s.nodes) - 1, 0))
Look(e) ==
  /\ Yes(Judge(e))
  /\ UNCHANGED <<s, gen, rad, seen, stamp, bent, known, loops>>
Take(e) ==
  CASE e.op = "reset" -> /\ s' = FreshFront /\ gen' = 60 /\ rad' = 1600 /\ seen' = << >> /\ stamp' = 0 /\ bent' = FALSE
                         /\ known' = << >> /\ loops' = FALSE
    [] e.op = "settings" -> /\ gen' = e.gen /\ rad' = (IF s.on THEN rad ELSE e.rad) /\ e.got = e.score
                            /\ UNCHANGED <<s, seen, stamp, bent, known, loops>>
    [] e.op = "update" -> Update(e)
    [] e.op = "look" -> Look(e)
    [] OTHER -> FALSE
TInit == s = FreshFront /\ gen = 60 /\ rad = 1600 /\ seen = << >> /\ stamp = 0 /\ bent = FALSE /\ known = << >> /\ loops = FALSE /\ l = 1
TNext == l <= Len(Trace) /\ Take(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
