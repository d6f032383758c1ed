----------------------------- MODULE VoxelGrid -----------------------------
(***************************************************************************)
(* The growing 2D voxel grid.  A grid is its extent (number of cells to    *)
(* each side of the centroid cell) and a partial map from cell coordinates *)
(* (x right, y up, centroid cell <<0,0>>) to values.  Positions are given  *)
(* in ticks, T to a cell, so borders between cells are ordinary positions. *)
(* grids is a sequence of independent grid objects.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT T             \* ticks per cell, even

VARIABLE grids         \* Seq([l, r, u, d, cells])

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* TLC's \div rounds towards minus infinity
CeilDiv(a, b) == -((-a) \div b)

\* cell [c-1/2, c+1/2) horizontally and (c-1/2, c+1/2] vertically
CellX(px) == (px + T \div 2) \div T
CellY(py) == -((-py + T \div 2) \div T)
CellOf(p) == <<CellX(p[1]), CellY(p[2])>>

NoCells == [c \in {} |-> 0]
NewGrid == [l |-> 0, r |-> 0, u |-> 0, d |-> 0, cells |-> [c \in {<<0, 0>>} |-> 0]]
InExt(g, c) == -g.l <= c[1] /\ c[1] <= g.r /\ -g.d <= c[2] /\ c[2] <= g.u
Inside(g, p) == InExt(g, CellOf(p))
Dom(g) == DOMAIN g.cells
Put(cells, c, v) == [x \in DOMAIN cells \cup {c} |-> IF x = c THEN v ELSE cells[x]]
Drop(cells, S) == [x \in DOMAIN cells \ S |-> cells[x]]

Grown(g, c) == [g EXCEPT !.l = Max(@, -c[1]), !.r = Max(@, c[1]),
                         !.d = Max(@, -c[2]), !.u = Max(@, c[2])]

(******************************* updates **********************************)
Added(g, p, v, merge) ==
  LET c == CellOf(p) h == Grown(g, c)
  IN [h EXCEPT !.cells = Put(g.cells, c, IF merge /\ c \in Dom(g) THEN g.cells[c] + v ELSE v)]
Removed(g, p) == [g EXCEPT !.cells = Drop(@, {CellOf(p)})]
\* smallest extent that covers the box [minx,maxx] x [miny,maxy]
Reach(x) == CeilDiv(x - T \div 2, T)
Enlarged(g, minx, miny, maxx, maxy) ==
  [g EXCEPT !.l = Max(@, Reach(-minx)), !.r = Max(@, Reach(maxx)),
            !.d = Max(@, Reach(-miny)), !.u = Max(@, Reach(maxy))]
Translated(g, dx, dy, discard) ==
  LET h == IF discard THEN g
           ELSE [g EXCEPT !.l = @ + Max(0, -dx), !.r = @ + Max(0, dx),
                          !.d = @ + Max(0, -dy), !.u = @ + Max(0, dy)]
      moved == {<<c[1] + dx, c[2] + dy>> : c \in Dom(g)}
  IN [h EXCEPT !.cells = [c \in {m \in moved : InExt(h, m)} |-> g.cells[<<c[1] - dx, c[2] - dy>>]]]
Cleared(g) == [g EXCEPT !.cells = NoCells]
Touched(g, S) == [g EXCEPT !.cells = [c \in Dom(g) \cup S |-> IF c \in Dom(g) THEN g.cells[c] ELSE 0]]

(******************************* queries **********************************)
NeighborSet(g, p, rad) ==
  IF ~Inside(g, p) THEN {}
  ELSE LET c == CellOf(p) IN {x \in Dom(g) : Abs(x[1] - c[1]) <= rad /\ Abs(x[2] - c[2]) <= rad}

(***************************************************************************)
(* Ray tracing.  The ray is sampled twice per cell along its longer axis   *)
(* and stops one to two cells short of its end, or at the grid's border.   *)
(* The specification leaves open how samples on cell borders are assigned: *)
(* RayOK accepts any result a user may rely on.                            *)
(***************************************************************************)
\* does the segment s-e meet the closed cell c ?  (separating axes, in ticks, doubled)
Meets(s, e, c) ==
  LET dx == e[1] - s[1]  dy == e[2] - s[2]
      lox == c[1] * T - T \div 2  hix == c[1] * T + T \div 2
      loy == c[2] * T - T \div 2  hiy == c[2] * T + T \div 2
      side(x, y) == dx * (y - s[2]) - dy * (x - s[1])
      q == {side(lox, loy), side(lox, hiy), side(hix, loy), side(hix, hiy)}
  IN /\ Max(s[1], e[1]) >= lox /\ Min(s[1], e[1]) <= hix
     /\ Max(s[2], e[2]) >= loy /\ Min(s[2], e[2]) <= hiy
     /\ ~(\A x \in q : x > 0) /\ ~(\A x \in q : x < 0)

\* longer axis of the ray: 1 = x, 2 = y
Dominant(s, e) == IF Abs(e[1] - s[1]) >= Abs(e[2] - s[2]) THEN 1 ELSE 2
RayLen(s, e) == Abs(e[Dominant(s, e)] - s[Dominant(s, e)])        \* ticks
FullCells(s, e) == RayLen(s, e) \div T

\* the ray runs inside c for more than half a cell of its longer axis, up to offset `lim` ticks
CrossesWell(s, e, c, lim) ==
  LET a == Dominant(s, e)  b == 3 - a
      D == RayLen(s, e)  dm == e[b] - s[b]  sg == Sign(e[a] - s[a])
      c0 == sg * (c[a] * T - s[a])              \* dominant offset of the cell centre
      lo1 == c0 - T \div 2  hi1 == c0 + T \div 2
      m0 == Sign(dm) * (c[b] * T - s[b])        \* the same for the minor axis
      loM == (m0 - T \div 2) * D  hiM == (m0 + T \div 2) * D      \* scaled by |dm|
  IN IF dm = 0
     THEN /\ Abs(c[b] * T - s[b]) < T \div 2
          /\ Max(lo1, 0) + T \div 2 < Min(hi1, lim)
     ELSE LET w == Abs(dm) IN
          Max(Max(lo1, 0) * w, loM) + (T \div 2) * w < Min(Min(hi1, lim) * w, hiM)

RayOK(g, s, e, res) ==
  IF ~Inside(g, s) THEN res = << >>
  ELSE
  LET n == Len(res)
      L == FullCells(s, e)
      a == Dominant(s, e)
      last == res[n]
      S == {res[i] : i \in 1 .. n}
      lim == (L - 1) * T
      AtBorder == \/ e[1] > s[1] /\ last[1] = g.r
                  \/ e[1] < s[1] /\ last[1] = -g.l
                  \/ e[2] > s[2] /\ last[2] = g.u
                  \/ e[2] < s[2] /\ last[2] = -g.d
      NearEnd == Abs(CellOf(e)[a] - last[a]) <= 2
  IN /\ n >= 1 /\ res[1] = CellOf(s)
     /\ \A i \in 1 .. n : InExt(g, res[i]) /\ Meets(s, e, res[i])
     /\ \A i \in 1 .. n - 1 :
          /\ res[i] # res[i + 1]
          /\ Abs(res[i + 1][1] - res[i][1]) <= 1 /\ Abs(res[i + 1][2] - res[i][2]) <= 1
          /\ (res[i + 1][1] - res[i][1]) * Sign(e[1] - s[1]) >= 0
          /\ (res[i + 1][2] - res[i][2]) * Sign(e[2] - s[2]) >= 0
     /\ (L < 1 => n = 1)
     /\ (n > 1 => last # CellOf(e))
     /\ (L >= 1 => IF Inside(g, e) THEN NearEnd ELSE NearEnd \/ AtBorder)
     /\ L >= 1 =>
        \A c \in {<<x, y>> : x \in Max(-g.l, Min(CellX(s[1]), CellX(e[1]))) .. Min(g.r, Max(CellX(s[1]), CellX(e[1]))),
                             y \in Max(-g.d, Min(CellY(s[2]), CellY(e[2]))) .. Min(g.u, Max(CellY(s[2]), CellY(e[2])))} :
          CrossesWell(s, e, c, lim) => c \in S

\* a reference ray: exact sampling in rational arithmetic (used to show RayOK is satisfiable)
RECURSIVE RefRayFrom(_, _, _, _, _)
RefRayFrom(g, s, e, k, acc) ==
  LET D == RayLen(s, e)
      \* sample k at dominant offset k*T/2: floor((x + T/2)/T) of rationals with denominator 2D
      px == (2 * D * s[1] + (e[1] - s[1]) * k * T)
      py == (2 * D * s[2] + (e[2] - s[2]) * k * T)
      cx == (px + D * T) \div (2 * D * T)
      cy == -((-py + D * T) \div (2 * D * T))
      c == <<cx, cy>>
  IN IF k > 2 * FullCells(s, e) - 2 \/ ~InExt(g, c) THEN acc
     ELSE RefRayFrom(g, s, e, k + 1, IF c = acc[Len(acc)] THEN acc ELSE Append(acc, c))
RefRay(g, s, e) ==
  IF ~Inside(g, s) THEN << >>
  ELSE IF FullCells(s, e) < 1 THEN <<CellOf(s)>> ELSE RefRayFrom(g, s, e, 1, <<CellOf(s)>>)

(****************************** properties ********************************)
WellFormed == \A i \in 1 .. Len(grids) : \A c \in Dom(grids[i]) : InExt(grids[i], c)
\* the grid never shrinks
NeverShrinks ==
  \A i \in 1 .. Len(grids) : i <= Len(grids') =>
     /\ grids'[i].l >= grids[i].l /\ grids'[i].r >= grids[i].r
     /\ grids'[i].u >= grids[i].u /\ grids'[i].d >= grids[i].d
=============================================================================
