--------------------------- MODULE TraceNDTMapper ---------------------------
EXTENDS GridRecords, NDTMapper, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES list, time, map, shown, loaded, msg, l
tvars == <<grids, list, time, map, shown, loaded, msg, l>>
NG == 4
\* the message: rows from the bottom, corner of the lower left cell
Shows(g, o) ==
  /\ o.w = g.l + g.r + 1 /\ o.h = g.u + g.d + 1 /\ o.res = 250 /\ Len(o.data) = o.w * o.h
  /\ IsPose(o.corner, Mul(PoseOf(g), Pose(-g.l * T - T \div 2, -g.d * T - T \div 2, 0, 0)), 3)
  /\ \A i \in 1 .. Len(o.data) : o.data[i] \in OccValue(g, <<((i - 1) % o.w) - g.l, ((i - 1) \div o.w) - g.d>>)
  /\ PointsOK(g, [t |-> <<g.x * Milli, g.y * Milli>>, n |-> g.n, k |-> g.k], o.pcl)
Msg(e) == IF e.msg = << >> THEN msg ELSE e.msg[1]
\* the map as drawn is what is published from now on
Published(e, m, t) == /\ map' = m /\ shown' = m /\ loaded' = t /\ msg' = Msg(e)
                      /\ Shows(m, msg') /\ msg'.load = t
Unpublished(e) == e.msg = << >> /\ e.steps = << >> /\ UNCHANGED <<map, shown, loaded, msg>>
Drawn(g, st, frames) ==
  LET h == frames[st.i]  f == Seen(h, g)  ds == Dists(h, f)  g2 == [Seen0(g, st.g) EXCEPT !.init = TRUE] IN
  IF Incorporated(g, g2, ds, D10(f.t), TRUE, TRUE, FALSE) THEN g2 ELSE [g2 EXCEPT !.l = -1]
RECURSIVE DrawAll(_, _, _, _)
DrawAll(g, sts, i, frames) == IF i > Len(sts) \/ g.l < 0 THEN g ELSE DrawAll(Drawn(g, sts[i], frames), sts, i + 1, frames)
Blank(g) == [g EXCEPT !.cells = EmptyCells, !.init = FALSE]
Step(e) ==
  CASE e.op = "reset" -> /\ grids' = [i \in 1 .. NG |-> NewGrid(0, 0, 0, 0)] /\ list' = << >> /\ time' = [i \in 1 .. NG |-> 0]
                         /\ map' = NewGrid(0, 0, 0, 0) /\ shown' = map' /\ loaded' = 0 /\ msg' = e.msg[1]
                         /\ msg'.w = 0 /\ msg'.h = 0 /\ msg'.data = << >> /\ msg'.pcl = << >>
    [] e.op = "new" -> Exactly(e, e.i, NewGrid(e.o[1], e.o[2], e.o[3], e.o[4])) /\ time' = [time EXCEPT ![e.i] = e.ts]
                       /\ UNCHANGED list /\ Unpublished(e)
    [] e.op = "scan" -> Scanned(e, grids[e.i], Seen([x |-> e.o[1], y |-> e.o[2], n |-> e.o[3], k |-> e.o[4]], grids[e.i]), e.traced, e.resize)
                        /\ UNCHANGED <<list, time>> /\ Unpublished(e)
    [] e.op = "add" ->
         /\ Len(e.steps) = 1 /\ e.steps[1].i = e.i
         /\ LET m == Drawn(map, e.steps[1], grids) IN m.l >= 0 /\ Published(e, m, loaded)
         /\ list' = Append(list, e.i) /\ time' = [time EXCEPT ![e.i] = e.t] /\ Only(e, e.i, After(e, e.i, grids[e.i])) /\ UNCHANGED grids
    [] e.op = "remove" ->
         /\ e.threw = ~Listed(list, e.i) /\ list' = Without(list, e.i) /\ UNCHANGED time /\ Quiet(e) /\ Unpublished(e)
    [] e.op = "update" ->
         /\ e.threw = ~Listed(list, e.i) /\ UNCHANGED <<list, time>> /\ Unpublished(e)
         /\ IF e.threw THEN Quiet(e)
            ELSE Exactly(e, e.i, [grids[e.i] EXCEPT !.x = e.o[1], !.y = e.o[2], !.n = e.o[3], !.k = e.o[4]])
    [] e.op = "combine" ->
         LET both == Listed(list, e.i) /\ Listed(list, e.j) IN
         /\ e.threw = ~both /\ Unpublished(e)
         /\ IF ~both THEN UNCHANGED <<list, time>> /\ Quiet(e)
            ELSE LET g == grids[e.i]  h == grids[e.j]  f == Seen(h, g)
                     g2 == [After(e, e.i, g) EXCEPT !.init = TRUE] IN
                 /\ e.got = e.i /\ list' = Without(list, e.j) /\ time' = [time EXCEPT ![e.i] = time[e.j]]
                 /\ Incorporated(g, g2, Dists(h, f), D10(f.t), TRUE, TRUE, FALSE) /\ Only(e, e.i, g2)
    [] e.op = "recalc" ->
         LET o == ByTime(list, time)  m == DrawAll(Blank(map), e.steps, 1, grids) IN
         /\ Len(e.steps) = Len(o) /\ \A k \in 1 .. Len(o) : e.steps[k].i = o[k]
         /\ m.l >= 0 /\ Published(e, m, e.t) /\ UNCHANGED <<list, time>> /\ Quiet(e)
    [] OTHER -> FALSE
\* the frames carry the time they were added with
TimesOK(e) == \A i \in Changed(e) : Rec(e, i).ts = time'[i]
TInit == grids = << >> /\ list = << >> /\ time = << >> /\ map = 0 /\ shown = 0 /\ loaded = 0 /\ msg = 0 /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ (Trace[l].op # "reset" => TimesOK(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
