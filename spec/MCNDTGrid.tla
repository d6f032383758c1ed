------------------------------ MODULE MCNDTGrid ------------------------------
(* Two grids; scans of a few prefabricated point sets, merging, moving, turning, clearing. Rays take a middling
   amount of evidence (lowest or highest allowed). *)
EXTENDS NDTGrid
CONSTANTS Scans,       \* sequences of points
          Poses,       \* of the sensor: <<x, y, k>>
          Origins,     \* of the grids: <<x, y, n, k>>
          MaxPts, MaxExt, MaxSteps, Moves, Turns
VARIABLES op, steps
vars == <<grids, op, steps>>
SS == [i \in 1 .. Len(Scans) |-> Scans[i]]
Init == /\ \E o \in Origins : grids = <<NewGrid(0, 0, 0, 0), NewGrid(o[1], o[2], o[3], o[4])>>
        /\ op = <<"reset">> /\ steps = 0
Put(i, g, o) == /\ \A c \in Dom(g) : g.cells[c].n <= MaxPts
                /\ g.l <= MaxExt /\ g.r <= MaxExt /\ g.d <= MaxExt /\ g.u <= MaxExt
                /\ Abs(g.x) <= 4 * T /\ Abs(g.y) <= 4 * T
                /\ grids' = [grids EXCEPT ![i] = g] /\ op' = o /\ steps < MaxSteps /\ steps' = steps + 1
\* the cells after tracing and merging, choosing the extreme ch of what rays may do
Result(g, ext, inc, s, R, ch) ==
  LET box == {<<x, y>> : x \in -ext.l .. ext.r, y \in -ext.d .. ext.u}
      eff == TLCEval([c \in box |-> RayEffect(g, c, s, R)])
      occ(c) == IF ch THEN eff[c].hi ELSE eff[c].lo
      kept(c) == eff[c].b.g /\ occ(c) >= 0
      left(c) == [eff[c].b EXCEPT !.occ = occ(c), !.g = kept(c)]
      seq(c) == IF c \in DOMAIN inc THEN inc[c] ELSE << >>
      cell(c) == IF seq(c) = << >> THEN left(c)
                 ELSE IF kept(c) THEN [PoolAll(left(c), seq(c), 1) EXCEPT !.occ = One]
                 ELSE IF Len(seq(c)) = 1 THEN seq(c)[1] ELSE [PoolAll(seq(c)[1], seq(c), 2) EXCEPT !.occ = One]
      dom == {c \in box : c \in DOMAIN inc \/ (IF ch THEN eff[c].must ELSE eff[c].may)}
  IN TLCEval([ext EXCEPT !.cells = [c \in dom |-> cell(c)], !.init = TRUE])
Merge(g, ds, s, traced, resize, ch) ==
  LET p == [i \in 1 .. Len(ds) |-> CellOf(ds[i].m)]
      f == Grouped(ds, p)
      ext == IF resize \/ ~g.init THEN GrownAll(Enlarged(g, Box({ds[i].m : i \in 1 .. Len(ds)})), DOMAIN f) ELSE g
  IN Result(g, ext, IF resize \/ ~g.init THEN f ELSE Kept(f, g), s, IF traced THEN RaysTo(ds) ELSE {}, ch)
Fresh(ps, f) ==
  LET sc == ScanCells(ps, f)  cs == SeqOf({c \in DOMAIN sc : sc[c].n >= MinPoints})
  IN TLCEval([i \in 1 .. Len(cs) |-> [g |-> TRUE, n |-> sc[cs[i]].n, m |-> sc[cs[i]].m, S |-> <<40, 0, 40>>, occ |-> One]])
B(b) == IF b THEN 1 ELSE 0
Scan == \E i \in 1 .. 2, k \in 1 .. Len(SS), o \in Poses, tr, re, ch \in BOOLEAN :
  LET g == grids[i]  f == Seen([x |-> o[1], y |-> o[2], n |-> 0, k |-> o[3]], g) IN
  /\ g.n = 0 /\ (~tr => ch) /\ (i = 2 => ~tr /\ re)
  /\ Put(i, Merge(g, Fresh(SS[k], f), D10(f.t), tr, re, ch), <<"scan", i, B(tr), B(re), o[1], o[2], 0, o[3], k>>)
Join == \E tr, re, tf, ch \in BOOLEAN :
  LET g == grids[1]  h == grids[2]  f == Seen(h, g)
      ds == Dists(h, IF tf THEN f ELSE [t |-> <<0, 0>>, n |-> 0, k |-> 0]) IN
  /\ ~tr => ch
  /\ \A i \in 1 .. Len(ds) : Cardinality(CellsOf(ds[i].m)) = 1
  /\ Put(1, Merge(g, ds, D10(f.t), tr, re, ch), <<"merge", 1, 2, B(tr), B(tf), B(re)>>)
Move == \E i \in 1 .. 2, v \in Moves :
  LET g == grids[i] IN
  /\ Put(i, IF Movable(g) THEN MovedBy(g, Trunc(v[1], T), Trunc(v[2], T)) ELSE g, <<"move", i, v[1], v[2]>>)
Rotate == \E i \in 1 .. 2, t \in Turns :
  LET g == grids[i]  ds == Dists(g, [t |-> <<0, 0>>, n |-> t[1], k |-> t[2]])
      e == [g EXCEPT !.cells = EmptyCells]
      f == Grouped(ds, [j \in 1 .. Len(ds) |-> CellOf(ds[j].m)]) IN
  /\ \A j \in 1 .. Len(ds) : Cardinality(CellsOf(ds[j].m)) = 1
  /\ Put(i, [Result(e, GrownAll(e, DOMAIN f), f, <<0, 0>>, {}, TRUE) EXCEPT !.init = g.init],
         <<"transform", i, 0, 0, t[1], t[2]>>)
Clear == \E i \in 1 .. 2 : Put(i, [grids[i] EXCEPT !.cells = EmptyCells, !.init = FALSE], <<"clear", i>>)
Next == Scan \/ Join \/ Move \/ Rotate \/ Clear
Spec == Init /\ [][Next]_vars
\* every constructed result is one the relational specification accepts
RECURSIVE Mass(_, _)
Mass(g, cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE x \in cs : TRUE IN g.cells[c].n + Mass(g, cs \ {c})
World(g) == {<<g.x * Milli + g.cells[c].m[1], g.y * Milli + g.cells[c].m[2], g.cells[c].n>> : c \in Gaussians(g)}
Steps ==
  CASE op'[1] = "scan" ->
         LET i == op'[2]  g == grids[i]  f == Seen([x |-> op'[5], y |-> op'[6], n |-> 0, k |-> op'[8]], g)
             ds == Fresh(SS[op'[9]], f) IN
         /\ Incorporated(g, grids'[i], ds, D10(f.t), op'[3] = 1, op'[4] = 1, TRUE)
         /\ (op'[3] = 0 /\ op'[4] = 1) => Mass(grids'[i], Gaussians(grids'[i])) = Mass(g, Gaussians(g)) + Mass([cells |-> ds], 1 .. Len(ds))
    [] op'[1] = "merge" ->
         LET g == grids[1]  h == grids[2] IN
         (op'[4] = 0 /\ op'[6] = 1) => Mass(grids'[1], Gaussians(grids'[1])) = Mass(g, Gaussians(g)) + Mass(h, Gaussians(h))
    [] op'[1] = "move" -> World(grids'[op'[2]]) \subseteq World(grids[op'[2]])
    [] op'[1] = "transform" ->
         /\ Turned(grids[op'[2]], grids'[op'[2]], op'[5], op'[6])
         /\ Mass(grids'[op'[2]], Gaussians(grids'[op'[2]])) = Mass(grids[op'[2]], Gaussians(grids[op'[2]]))
    [] OTHER -> TRUE
StepsOK == [][Steps]_vars
=============================================================================
