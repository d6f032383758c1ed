---------------------------- MODULE GridRecords ----------------------------
(* Grids as the harness records them. *)
EXTENDS NDTGrid
\* a grid as recorded; pose and init belong to the specification

Idx(q) == <<q[1], q[2]>>
CellFun(cs) == [c \in {Idx(cs[j]) : j \in 1 .. Len(cs)} |->
    LET q == cs[CHOOSE j \in 1 .. Len(cs) : Idx(cs[j]) = c] IN
    [g |-> q[3] = 1, n |-> q[4], m |-> <<q[5], q[6]>>, S |-> <<q[7], q[8], q[9]>>, occ |-> q[10]]]
Seen0(g, o) == [g EXCEPT !.l = o.ext[1], !.r = o.ext[2], !.d = o.ext[3], !.u = o.ext[4], !.cells = CellFun(o.cells)]
Changed(e) == {e.chg[j].i : j \in 1 .. Len(e.chg)}
Rec(e, i) == e.chg[CHOOSE j \in 1 .. Len(e.chg) : e.chg[j].i = i].g
\* the record of register i after the step, seen as a change of g
After(e, i, g) == IF i \in Changed(e) THEN Seen0(g, Rec(e, i)) ELSE g
PoseOf(g) == Pose(g.x, g.y, g.n, g.k)
PoseOK(e, i, g) == i \in Changed(e) => IsPose(Rec(e, i).pose, PoseOf(g), 2) /\ Rec(e, i).res = 250
\* only i changes, becoming g
Only(e, i, g) == /\ Changed(e) \subseteq {i} /\ PoseOK(e, i, g) /\ grids' = [grids EXCEPT ![i] = g]
Quiet(e) == Changed(e) = {} /\ UNCHANGED grids
Exactly(e, i, g) == After(e, i, g) = g /\ Only(e, i, g)
\* turning regularises nothing, but rounds
IncDists(e) == [j \in 1 .. Len(e.inc) |-> [g |-> TRUE, n |-> e.inc[j][1], m |-> <<e.inc[j][2], e.inc[j][3]>>,
                                           S |-> <<e.inc[j][4], e.inc[j][5], e.inc[j][6]>>, occ |-> e.inc[j][7]]]
\* the distributions recorded for the batch are those of the points
IncOK(ds, ps, f) ==
  LET sc == ScanCells(ps, f)  cs == {c \in DOMAIN sc : sc[c].n >= MinPoints} IN
  /\ Len(ds) = Cardinality(cs)
  /\ \A j \in 1 .. Len(ds) : LET c == CellOf(ds[j].m) IN c \in cs /\ ds[j].n = sc[c].n
                                /\ Near(ds[j].m[1], sc[c].m[1], 2) /\ Near(ds[j].m[2], sc[c].m[2], 2) /\ ds[j].occ = One
Scanned(e, g, f, traced, resize) ==
  LET ds == IncDists(e)  g2 == [After(e, e.i, g) EXCEPT !.init = TRUE] IN
  /\ IncOK(ds, e.pts, f)
  /\ Incorporated(g, g2, ds, D10(f.t), traced, resize, TRUE)
  /\ Only(e, e.i, g2)
=============================================================================
