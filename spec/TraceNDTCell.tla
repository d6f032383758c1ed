--------------------------- MODULE TraceNDTCell ---------------------------
EXTENDS NDTCell, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT      \* "fuse" or "occ"
VARIABLE l
tvars == <<cells, l>>
Fuse == Aspect = "fuse"
\* recorded projection of a cell after the call
Obs1(c, o) ==
  /\ o.g = c.g /\ o.n = c.n /\ o.occ = c.occ
  /\ o.occ >= -One /\ o.occ <= One
  /\ IF Fuse THEN c.g => o.s = c.s /\ o.S = c.S /\ o.spd ELSE PercentOK(o.pct, o.occ)
Obs(e) == Len(e.cells) = Len(cells') /\ \A i \in 1 .. Len(cells') : Obs1(cells'[i], e.cells[i])
\* the specification leaves the new occupancy and scatter open within bounds: taken from the record
O(e) == e.cells[e.c]
C(e) == cells[e.c]
Set(e, c) == cells' = [cells EXCEPT ![e.c] = c]
OccIs(e, x) == Near(O(e).occ, x, 5)
Step(e) ==
  CASE e.op = "reset" -> cells' = [i \in 1 .. e.num |-> NewCell]
    [] e.op = "pts" -> Set(e, AddedPts(C(e), e.pts))
    [] e.op = "compute" ->
         LET c == C(e)  o == O(e) IN
         /\ OccIs(e, ComputedOcc(c)) /\ o.occ >= c.occ
         /\ Set(e, Computed(c, o.occ, o.pos, o.S))
         /\ (Fuse /\ o.pos /\ c.pend.n >= MinPoints) =>
              /\ e.twin.g /\ e.twin.n = c.pend.n /\ FreshOK(c.pend, e.twin.S, e.q * e.q)
              /\ IF c.g THEN PooledOK(c.n, c.s, c.S, c.pend.n, c.pend.s, e.twin.S, o.S)
                 ELSE o.S = e.twin.S
    [] e.op = "merge" ->
         LET c == C(e)  d == cells[e.d]  o == O(e) IN
         /\ OccIs(e, MergedOcc(c, d))
         /\ Set(e, Merged(c, d, o.occ, o.S))
         /\ (Fuse /\ MergeTakes(d) /\ c.g) => PooledOK(c.n, c.s, c.S, d.n, d.s, d.S, o.S)
    [] e.op = "ray" ->
         /\ RayOcc(C(e), e.a, e.e, e.w, O(e).occ, e.q)
         /\ Set(e, Rayed(C(e), O(e).occ, O(e).pos, O(e).g))
    [] e.op = "rot" ->
         LET c == C(e)  r == [ax |-> e.ax, sg |-> e.sg]  m == RotM(r, c.S) IN
         /\ Set(e, Transformed(c, r, e.t, O(e).S))
         /\ (Fuse /\ c.g) => \A k \in 1 .. 6 : Near(O(e).S[k], m[k], 6 + Trace3(c.S) \div 5000)
    [] e.op = "setocc" -> OccIs(e, SetOccupied(C(e), e.v).occ) /\ Set(e, [C(e) EXCEPT !.occ = O(e).occ])
    [] e.op = "copy" -> Set(e, cells[e.d])
    [] e.op = "ser" -> UNCHANGED cells /\ (Fuse => e.same)
    [] OTHER -> FALSE
TInit == cells = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ Obs(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
