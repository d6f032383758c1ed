----------------------------- MODULE TraceNDTGrid -----------------------------
EXTENDS GridRecords, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<grids, l>>
NG == 3
Zero == [t |-> <<0, 0>>, n |-> 0, k |-> 0]
Step(e) ==
  CASE e.op = "reset" -> grids' = [i \in 1 .. NG |-> NewGrid(0, 0, 0, 0)]
    [] e.op = "new" -> Exactly(e, e.i, NewGrid(e.o[1], e.o[2], e.o[3], e.o[4]))
    [] e.op = "init" -> Scanned(e, [grids[e.i] EXCEPT !.cells = EmptyCells], Zero, e.traced, TRUE)
    [] e.op = "scan" -> Scanned(e, grids[e.i], Seen([x |-> e.o[1], y |-> e.o[2], n |-> e.o[3], k |-> e.o[4]], grids[e.i]), e.traced, e.resize)
    [] e.op = "merge" ->
         LET g == grids[e.i]  h == grids[e.j]  f == Seen(h, g)
             ds == Dists(h, IF e.transform THEN f ELSE Zero)  g2 == [After(e, e.i, g) EXCEPT !.init = TRUE]
             far == h.l + h.r + h.u + h.d + Abs(f.t[1]) \div TM + Abs(f.t[2]) \div TM + 4
         IN /\ Incorporated(g, g2, ds, D10(f.t), e.traced, e.resize, FALSE)
            /\ Within(g2, [l |-> Max(g.l, far), r |-> Max(g.r, far), d |-> Max(g.d, far), u |-> Max(g.u, far)])
            /\ Only(e, e.i, g2)
    [] e.op = "enlarge" -> LET g == grids[e.i] IN
         Exactly(e, e.i, Enlarged(g, <<Min(0, e.a[1] * Milli), Max(0, e.a[3] * Milli), Min(0, e.a[2] * Milli), Max(0, e.a[4] * Milli)>>))
    [] e.op = "transform" ->
         LET g == grids[e.i]  g2 == [After(e, e.i, g) EXCEPT !.x = @ + e.t[1], !.y = @ + e.t[2]] IN
         /\ Turned(g, g2, e.t[3], e.t[4]) /\ Only(e, e.i, g2)
    [] e.op = "move" ->
         LET g == grids[e.i]  mx == Trunc(e.t[1], T)  my == Trunc(e.t[2], T)  h == MovedBy(g, mx, my)
             g2 == After(e, e.i, h) IN
         /\ IF ~Movable(g) THEN Quiet(e) /\ IsPose(e.rest, Pose(e.t[1], e.t[2], e.t[3], e.t[4]), 2)
            ELSE /\ IsPose(e.rest, Pose(e.t[1] - mx * T, e.t[2] - my * T, e.t[3], e.t[4]), 2)
                 /\ SameExt(g2, h) /\ Dom(g2) = Dom(h)
                 /\ \A c \in Dom(h) : LET a == g2.cells[c]  b == h.cells[c] IN
                      a.g = b.g /\ a.n = b.n /\ a.S = b.S /\ a.occ = b.occ
                      /\ (a.g => Near(a.m[1], b.m[1], 1) /\ Near(a.m[2], b.m[2], 1))
                 /\ Only(e, e.i, g2)
    [] e.op = "setorigin" -> Exactly(e, e.i, [grids[e.i] EXCEPT !.x = e.o[1], !.y = e.o[2], !.n = e.o[3], !.k = e.o[4]])
    [] e.op = "clear" -> Exactly(e, e.i, [grids[e.i] EXCEPT !.cells = EmptyCells, !.init = FALSE])
    [] e.op = "copy" -> Exactly(e, e.i, grids[e.j])
    [] e.op = "neigh" -> Quiet(e) /\ NeighOK(grids[e.i], e.p, e.r, {Idx(e.res[k]) : k \in 1 .. Len(e.res)})
                         /\ Cardinality({Idx(e.res[k]) : k \in 1 .. Len(e.res)}) = Len(e.res)
    [] e.op = "knn" -> Quiet(e) /\ KnnOK(grids[e.i], e.p, e.k, [j \in 1 .. Len(e.res) |-> Idx(e.res[j])])
    [] e.op = "occ" -> Quiet(e) /\ OccOK(grids[e.i], e) /\ CornerOK(grids[e.i], e.corner) /\ e.res = 250
    [] e.op = "ser" -> LET g == grids[e.i] IN
         /\ Quiet(e) /\ CornerOK(g, e.corner) /\ e.size = <<g.l + g.r + 1, g.u + g.d + 1>> /\ e.count = Cardinality(Dom(g))
         /\ PointsOK(g, Zero, e.means)
    [] e.op = "means" -> LET g == grids[e.i] IN
         /\ Quiet(e) /\ PointsOK(g, Zero, e.means)
         /\ PointsOK(g, [t |-> <<g.x * Milli, g.y * Milli>>, n |-> g.n, k |-> g.k], e.world)
    [] e.op = "coarse" -> Quiet(e) /\ CoarseOK(grids[e.i], e.f, e.cells)
    [] OTHER -> FALSE
TInit == grids = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
