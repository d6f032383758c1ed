-------------------------- MODULE TraceVoxelGrid --------------------------
EXTENDS VoxelGrid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<grids, l>>
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

\* recorded projection of every grid object after the call; objects that were moved from are
\* recorded as <<>> and are not compared
ObsGrid(g, o) ==
  /\ o.l = g.l /\ o.r = g.r /\ o.u = g.u /\ o.d = g.d /\ o.ok
  /\ Len(o.cells) = Cardinality(DOMAIN g.cells)
  /\ ToSet(o.cells) = {<<c[1], c[2], g.cells[c]>> : c \in DOMAIN g.cells}
  /\ o.valid = Cardinality(DOMAIN g.cells)
Obs(e) == Len(e.grids) = Len(grids') /\ \A i \in 1 .. Len(grids') : ObsGrid(grids'[i], e.grids[i])

Set(k, h) == grids' = [grids EXCEPT ![k] = h]
P(e) == <<e.x, e.y>>
G(e) == grids[e.g]
Step(e) ==
  CASE e.op = "reset" -> grids' = <<NewGrid>>
    [] e.op = "add" -> Set(e.g, Added(G(e), P(e), e.v, e.merge))
    [] e.op = "remove" -> e.ret = (CellOf(P(e)) \in Dom(G(e))) /\ Set(e.g, Removed(G(e), P(e)))
    [] e.op = "enlarge" -> Set(e.g, Enlarged(G(e), e.x, e.y, e.x2, e.y2))
    [] e.op = "clear" -> Set(e.g, Cleared(G(e)))
    [] e.op = "translate" -> Set(e.g, Translated(G(e), e.dx, e.dy, e.discard))
    [] e.op = "ray" -> /\ RayOK(G(e), P(e), <<e.x2, e.y2>>, e.res)
                       /\ Set(e.g, Touched(G(e), ToSet(e.res)))
    [] e.op = "copy" -> grids' = [i \in 1 .. Max(Len(grids), e.h) |-> IF i = e.h THEN G(e) ELSE grids[i]]
    [] e.op = "clone" -> grids' = [i \in 1 .. Max(Len(grids), e.h) |-> IF i = e.h THEN NewGrid ELSE grids[i]]
    [] e.op = "selfassign" -> UNCHANGED grids
    [] e.op = "setref" -> /\ CellOf(P(e)) \in Dom(G(e))
                          /\ Set(e.g, [G(e) EXCEPT !.cells[CellOf(P(e))] = e.v])
    \* queries
    [] e.op = "at" -> /\ UNCHANGED grids
                      /\ e.inside = Inside(G(e), P(e))
                      /\ e.exists = (CellOf(P(e)) \in Dom(G(e)))
                      /\ e.inside => e.centre = CellOf(P(e))
                      /\ e.exists => /\ e.v = G(e).cells[CellOf(P(e))] /\ e.at = CellOf(P(e))
                      /\ (e.inside /\ ~e.exists) => e.null
    [] e.op = "neigh" -> /\ UNCHANGED grids
                         /\ NoDup(e.res) /\ ToSet(e.res) = NeighborSet(G(e), P(e), e.rad)
    [] e.op = "list" -> LET g == G(e) vals == [c \in Dom(g) |-> g.cells[c]] IN
                        /\ UNCHANGED grids
                        /\ NoDup(e.ptrs) /\ ToSet(e.ptrs) = Dom(g)
                        /\ Len(e.vals) = Len(e.ptrs)
                        /\ \A i \in 1 .. Len(e.vals) : e.vals[i] = g.cells[e.ptrs[i]]
                        \* printed grid: rows from the top, -1 where there is no cell
                        /\ Len(e.print) = g.u + g.d + 1
                        /\ \A row \in 1 .. Len(e.print) :
                             /\ Len(e.print[row]) = g.l + g.r + 1
                             /\ \A col \in 1 .. Len(e.print[row]) :
                                  LET c == <<col - 1 - g.l, g.u - (row - 1)>> IN
                                  e.print[row][col] = IF c \in Dom(g) THEN g.cells[c] ELSE -1
    [] OTHER -> FALSE
TInit == grids = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ Obs(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
