------------------------------ MODULE NDTGrid ------------------------------
(***************************************************************************)
(* Grids of normal distributions.  A grid has a pose in the world (origin  *)
(* in ticks, heading in quarter turns and 3-4-5 turns), an extent (cells   *)
(* to each side of the centroid cell) and a partial map from cell          *)
(* coordinates (x right, y up) to cells                                    *)
(*    [g, n, m, S, occ]                                                    *)
(* with g: there is a distribution, n its points, m its mean in thousandth *)
(* ticks and grid coordinates, S its scatter ((n-1)*covariance, ticks^2,   *)
(* <<xx, xy, yy>>), occ the occupancy in millionths.  T = 16 ticks to a    *)
(* cell.  Occupancy after tracing rays is specified by bounds; everything  *)
(* else is exact up to rounding.                                           *)
(***************************************************************************)
EXTENDS SE2, FiniteSets, TLC
CONSTANTS T, MinPoints, One, Hit, Miss
VARIABLE grids        \* Seq of grids

Milli == 1000
TM == T * Milli
Eps == 3              \* rounding of means, thousandths
Clamp(x) == Max(-One, Min(One, x))
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
CeilDiv(a, b) == -((-a) \div b)

(********************************* cells **********************************)
CellX(px) == (px + TM \div 2) \div TM
CellY(py) == -((-py + TM \div 2) \div TM)
CellOf(p) == <<CellX(p[1]), CellY(p[2])>>
\* cells a mean may be counted to, given rounding
CellsOf(p) == {<<CellX(p[1] + dx), CellY(p[2] + dy)>> : dx \in {-Eps, 0, Eps}, dy \in {-Eps, 0, Eps}}
InExt(g, c) == -g.l <= c[1] /\ c[1] <= g.r /\ -g.d <= c[2] /\ c[2] <= g.u
Grown(g, c) == [g EXCEPT !.l = Max(@, -c[1]), !.r = Max(@, c[1]), !.d = Max(@, -c[2]), !.u = Max(@, c[2])]
Reach(x) == CeilDiv(x - TM \div 2, TM)
Dom(g) == DOMAIN g.cells
Gaussians(g) == {c \in Dom(g) : g.cells[c].g}
NoCell == [g |-> FALSE, n |-> 0, m |-> <<0, 0>>, S |-> <<0, 0, 0>>, occ |-> 0]
EmptyCells == [c \in {} |-> NoCell]
NewGrid(x, y, n, k) == [x |-> x, y |-> y, n |-> n, k |-> k % 4, l |-> 0, r |-> 0, u |-> 0, d |-> 0,
                        init |-> FALSE, cells |-> [c \in {<<0, 0>>} |-> NoCell]]

(****************************** motion of cells ***************************)
\* a vector of thousandth ticks, turned
Rot(n, k, v) == LET t == Turn(n, k, v) IN <<t[1] \div P5(Abs(n)), t[2] \div P5(Abs(n))>>
RotS(n, k, S) ==
  LET r == CS(n, k)  c == r[1]  s == r[2]  q == P5(Abs(n)) * P5(Abs(n)) IN
  <<(c * c * S[1] - 2 * c * s * S[2] + s * s * S[3]) \div q,
    (c * s * S[1] + (c * c - s * s) * S[2] - c * s * S[3]) \div q,
    (s * s * S[1] + 2 * c * s * S[2] + c * c * S[3]) \div q>>
\* pose of frame a (record with x, y, n, k) seen from frame b: translation in thousandths and turn
Seen(a, b) == [t |-> Rot(-b.n, -b.k, <<(a.x - b.x) * Milli, (a.y - b.y) * Milli>>), n |-> a.n - b.n, k |-> (a.k - b.k) % 4]
Moved(c, f) == LET v == Rot(f.n, f.k, c.m) IN
  [c EXCEPT !.m = <<v[1] + f.t[1], v[2] + f.t[2]>>, !.S = RotS(f.n, f.k, @)]

(***************************** distributions ******************************)
\* the distribution of the union of two samples
PoolM(a, b) == <<(a.n * a.m[1] + b.n * b.m[1]) \div (a.n + b.n), (a.n * a.m[2] + b.n * b.m[2]) \div (a.n + b.n)>>
PoolS(a, b) ==
  LET dx == (a.m[1] - b.m[1]) \div 10  dy == (a.m[2] - b.m[2]) \div 10
      \* n1*n2/(n1+n2), tenfold to keep a digit
      w == (10 * a.n * b.n) \div (a.n + b.n)
      f(v) == ((v \div 1000) * w) \div 100
  IN <<a.S[1] + b.S[1] + f(dx * dx), a.S[2] + b.S[2] + f(dx * dy), a.S[3] + b.S[3] + f(dy * dy)>>
Pool(a, b) == [a EXCEPT !.n = a.n + b.n, !.m = PoolM(a, b), !.S = PoolS(a, b)]
RECURSIVE PoolAll(_, _, _)
PoolAll(a, bs, i) == IF i > Len(bs) THEN a ELSE PoolAll(Pool(a, bs[i]), bs, i + 1)
SameDist(a, b) ==
  LET slack == (Abs(b.S[1]) + Abs(b.S[3])) \div 40 + 20 + b.n IN
  /\ a.n = b.n /\ Near(a.m[1], b.m[1], Eps + 2) /\ Near(a.m[2], b.m[2], Eps + 2)
  /\ \A i \in 1 .. 3 : Near(a.S[i], b.S[i], slack)

(******************************** scans ***********************************)
\* points of a scan (ticks, sensor frame) in the cells of a grid; f places the sensor (quarter turns only)
PlacePt(p, f) == LET v == Turn(0, f.k, p) IN <<v[1] * Milli + f.t[1], v[2] * Milli + f.t[2]>>
ScanCells(ps, f) ==
  LET q == TLCEval([i \in 1 .. Len(ps) |-> PlacePt(ps[i], f)])
      cs == {CellOf(q[i]) : i \in 1 .. Len(ps)}
      RECURSIVE Sum(_, _, _)
      Sum(c, i, acc) == IF i > Len(ps) THEN acc
                        ELSE Sum(c, i + 1, IF CellOf(q[i]) = c THEN <<acc[1] + 1, acc[2] + q[i][1], acc[3] + q[i][2]>> ELSE acc)
  IN TLCEval([c \in cs |-> LET s == Sum(c, 1, <<0, 0, 0>>) IN [n |-> s[1], m |-> <<s[2] \div s[1], s[3] \div s[1]>>]])
\* corner of the box around the points and the sensor's grid centre
Box(ms) == LET xs == {0} \cup {p[1] : p \in ms}  ys == {0} \cup {p[2] : p \in ms}
           IN <<CHOOSE x \in xs : \A y \in xs : x <= y, CHOOSE x \in xs : \A y \in xs : x >= y,
                CHOOSE x \in ys : \A y \in ys : x <= y, CHOOSE x \in ys : \A y \in ys : x >= y>>
Enlarged(g, b) == [g EXCEPT !.l = Max(@, Reach(-b[1])), !.r = Max(@, Reach(b[2])),
                            !.d = Max(@, Reach(-b[3])), !.u = Max(@, Reach(b[4]))]

(********************************* rays ***********************************)
(* end points in tenths of ticks *)
TD == T * 10
D10(p) == <<p[1] \div 100, p[2] \div 100>>
\* does the segment meet the cell, widened by a tenth of a tick ?
MeetsW(s, e, c) ==
  LET dx == e[1] - s[1]  dy == e[2] - s[2]
      lox == c[1] * TD - TD \div 2 - 2  hix == c[1] * TD + TD \div 2 + 2
      loy == c[2] * TD - TD \div 2 - 2  hiy == c[2] * TD + TD \div 2 + 2
      side(x, y) == dx * (y - s[2]) - dy * (x - s[1])
      q == {side(lox, loy), side(lox, hiy), side(hix, loy), side(hix, hiy)}
  IN /\ Max(s[1], e[1]) >= lox /\ Min(s[1], e[1]) <= hix
     /\ Max(s[2], e[2]) >= loy /\ Min(s[2], e[2]) <= hiy
     /\ ~(\A x \in q : x > 0) /\ ~(\A x \in q : x < 0)
Dominant(s, e) == IF Abs(e[1] - s[1]) >= Abs(e[2] - s[2]) THEN 1 ELSE 2
\* the segment runs inside the cell for more than half a cell of its longer axis, two cells before its end
Crosses(s, e, c) ==
  LET a == Dominant(s, e)  b == 3 - a
      D == Abs(e[a] - s[a])  dm == e[b] - s[b]  sg == Sign(e[a] - s[a])
      lim == D - 2 * TD - 2
      c0 == sg * (c[a] * TD - s[a])
      lo1 == c0 - TD \div 2  hi1 == c0 + TD \div 2
      m0 == Sign(dm) * (c[b] * TD - s[b])
      loM == (m0 - TD \div 2 + 2) * D  hiM == (m0 + TD \div 2 - 2) * D
      half == TD \div 2 + 4
  IN IF dm = 0 THEN /\ Abs(c[b] * TD - s[b]) < TD \div 2 - 2
                    /\ Max(lo1, 0) + half < Min(hi1, lim)
     ELSE LET w == Abs(dm) IN Max(Max(lo1, 0) * w, loM) + half * w < Min(Min(hi1, lim) * w, hiM)
\* squared Mahalanobis distance of the line from the mean, times four, roughly; large when degenerate
Maha4(b, s, e) ==
  LET u == <<e[1] - s[1], e[2] - s[2]>>
      L == Abs(u[1]) + Abs(u[2])
      v == <<(u[1] * 64) \div L, (u[2] * 64) \div L>>              \* about 64 long in L1
      off == <<(b.m[1] \div 100 - e[1]), (b.m[2] \div 100 - e[2])>>    \* tenths
      cr == Abs(v[1] * off[2] - v[2] * off[1]) \div 10               \* ticks * 64
      var == v[2] * v[2] * (b.S[1] \div Max(1, b.n - 1)) - 2 * v[1] * v[2] * (b.S[2] \div Max(1, b.n - 1)) + v[1] * v[1] * (b.S[3] \div Max(1, b.n - 1))
  IN IF var <= 4096 \/ cr > 20000 THEN 1000 ELSE (4 * cr * cr) \div var
\* a ray that certainly speaks against the distribution b: through it, ending well behind it
Strong(b, s, r) == /\ Abs(b.m[1] \div 100 - r.e[1]) + Abs(b.m[2] \div 100 - r.e[2]) > 2 * TD
                   /\ Maha4(b, s, r.e) <= 1
RECURSIVE SumW(_)
SumW(R) == IF R = {} THEN 0 ELSE LET r == CHOOSE x \in R : TRUE IN r.w + SumW(R \ {r})

(* What tracing the rays R (records [id, e, w], from s) may leave of the cell b at c: bounds of its
   occupancy, whether it exists, whether its distribution may survive or may be gone *)
RayEffect(g, c, s, R) ==
  LET has == c \in Dom(g)
      b == IF has THEN g.cells[c] ELSE NoCell
      start == CellsOf(<<s[1] * 100, s[2] * 100>>)
      May == IF ~InExt(g, c) \/ ~(\E k \in start : InExt(g, k)) THEN {} ELSE {r \in R : MeetsW(s, r.e, c)}
      Must == IF \A k \in start : InExt(g, k) THEN {r \in May : Crosses(s, r.e, c)} ELSE {}
      ends == b.g /\ \E r \in May : Abs(b.m[1] \div 100 - r.e[1]) + Abs(b.m[2] \div 100 - r.e[2]) <= 10
      lo == Clamp(b.occ - Hit * Min(100, SumW(May)))
      hi == IF ends THEN One
            ELSE IF ~b.g THEN Clamp(b.occ - Miss * Min(100, SumW(Must)))
            ELSE LET W == SumW({r \in Must : Strong(b, s, r)}) IN Clamp(b.occ - Miss * Min(100, W))
  IN [b |-> b, must |-> has \/ Must # {}, may |-> has \/ May # {}, touched |-> May # {},
      lo |-> IF May = {} THEN b.occ ELSE lo, hi |-> hi,
      keeps |-> b.g /\ hi >= -2, drops |-> b.g /\ May # {} /\ lo <= 2]

(****************************** merging ***********************************)
\* may a be what becomes of the cell at c, when the distributions in `inc` (a sequence) are merged into what
\* the rays left of it (eff)
MergedOK(eff, inc, has, a) ==
  LET b == eff.b IN
  IF inc = << >> THEN
    IF ~has THEN ~eff.must
    ELSE /\ eff.may
         /\ a.occ >= eff.lo - 10 /\ a.occ <= eff.hi + 10
         /\ IF a.g THEN eff.keeps /\ a.occ >= -2 /\ a.n = b.n /\ a.m = b.m /\ a.S = b.S ELSE b.g => eff.drops /\ a.occ <= 2
  ELSE /\ has /\ a.g
       /\ \/ eff.keeps /\ a.occ = One /\ SameDist(a, PoolAll(b, inc, 1))
          \/ /\ ~b.g \/ eff.drops
             /\ SameDist(a, PoolAll(inc[1], inc, 2))
             /\ IF Len(inc) = 1 THEN Near(a.occ, inc[1].occ, 5) ELSE a.occ = One

(* Merging the distributions inc (cell -> sequence of distributions) and, before that, tracing the rays R from s,
   turns the cells of g into those of g2.  g2's extent is e2 *)
Ext(g) == <<g.l, g.r, g.d, g.u>>
MergeOK(g, g2, inc, s, R) ==
  \A x \in -g2.l .. g2.r, y \in -g2.d .. g2.u :
    LET c == <<x, y>>  has == c \in Dom(g2) IN
    MergedOK(RayEffect(g, c, s, R), IF c \in DOMAIN inc THEN inc[c] ELSE << >>, has, IF has THEN g2.cells[c] ELSE NoCell)

\* all ways to put the distributions ds (sequence) into cells, borders being decided by rounding
RECURSIVE Places(_, _)
Places(ds, i) == IF i > Len(ds) THEN {<< >>} ELSE {<<c>> \o r : c \in CellsOf(ds[i].m), r \in Places(ds, i + 1)}
\* cell -> sequence of the distributions put there
Grouped(ds, p) ==
  LET RECURSIVE Pick(_, _)
      Pick(c, i) == IF i > Len(ds) THEN << >> ELSE (IF p[i] = c THEN <<ds[i]>> ELSE << >>) \o Pick(c, i + 1)
  IN TLCEval([c \in {p[i] : i \in 1 .. Len(ds)} |-> Pick(c, 1)])
Kept(f, g) == [c \in {d \in DOMAIN f : InExt(g, d)} |-> f[c]]
RaysTo(ds) == TLCEval({[id |-> i, e |-> D10(ds[i].m), w |-> ds[i].n] : i \in 1 .. Len(ds)})
RECURSIVE GrownAll(_, _)
GrownAll(g, cs) == IF cs = {} THEN g ELSE LET c == CHOOSE x \in cs : TRUE IN GrownAll(Grown(g, c), cs \ {c})
SameExt(a, b) == Ext(a) = Ext(b)
Within(a, b) == a.l <= b.l /\ a.r <= b.r /\ a.d <= b.d /\ a.u <= b.u
\* the extent has to hold every incoming distribution; it is exactly the box of them when tight
ExtOK(g, g2, ds, f, resize, tight) ==
  IF resize \/ ~g.init
  THEN LET e == Enlarged(g, Box({ds[i].m : i \in 1 .. Len(ds)}))
           h == GrownAll(g, DOMAIN f) IN
       /\ Within(h, g2)
       /\ tight => \E dx, dy \in {-Eps, 0, Eps} :
                     SameExt(g2, GrownAll(Enlarged(g, Box({<<ds[i].m[1] + dx, ds[i].m[2] + dy>> : i \in 1 .. Len(ds)})), DOMAIN f))
  ELSE SameExt(g, g2)
Incorporated(g, g2, ds, s, traced, resize, tight) ==
  \E p \in Places(ds, 1) :
    LET f == Grouped(ds, p) IN
    /\ ExtOK(g, g2, ds, f, resize, tight)
    /\ MergeOK(g, g2, IF resize \/ ~g.init THEN f ELSE Kept(f, g), s, IF traced THEN RaysTo(ds) ELSE {})

(********************************* moves **********************************)
Trunc(x, w) == IF x >= 0 THEN x \div w ELSE -((-x) \div w)
\* the grid follows its robot by whole cells; what does not fit in the extent any more is lost
MovedBy(g, mx, my) ==
  [g EXCEPT !.x = @ + mx * T, !.y = @ + my * T,
            !.cells = [c \in {d \in {<<k[1] - mx, k[2] - my>> : k \in Dom(g)} : InExt(g, d)} |->
                         LET b == g.cells[<<c[1] + mx, c[2] + my>>] IN
                         IF b.g THEN [b EXCEPT !.m = <<@[1] - mx * TM, @[2] - my * TM>>] ELSE b]]
Movable(g) == g.n = 0 /\ g.k = 0
\* rotated about its own origin; only distributions survive
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Dists(g, f) == LET cs == SeqOf(Gaussians(g)) IN TLCEval([i \in 1 .. Len(cs) |-> Moved(g.cells[cs[i]], f)])
Turned(g, g2, n, k) ==
  LET ds == Dists(g, [t |-> <<0, 0>>, n |-> n, k |-> k]) IN
  \E p \in Places(ds, 1) :
    LET f == Grouped(ds, p) IN
    /\ SameExt(g2, GrownAll(g, DOMAIN f))
    /\ Dom(g2) = DOMAIN f
    /\ MergeOK([g EXCEPT !.cells = EmptyCells], g2, f, <<0, 0>>, {})

(******************************** queries *********************************)
Sq(x) == x * x
Dist2(m, p) == Sq(m[1] \div 100 - p[1] * 10) + Sq(m[2] \div 100 - p[2] * 10)        \* p in ticks; deciticks^2
\* distributions within r ticks of p
NeighOK(g, p, r, res) ==
  LET G == Gaussians(g)  own == CellOf(<<p[1] * Milli, p[2] * Milli>>) IN
  IF r <= 0 THEN res = G \cap {own}
  ELSE /\ res \subseteq {c \in G : Dist2(g.cells[c].m, p) <= Sq(10 * r + 2)} \cup (G \cap {own})
       /\ InExt(g, own) => {c \in G : Dist2(g.cells[c].m, p) <= Sq(10 * r - 2)} \subseteq res
KnnOK(g, p, k, res) ==
  LET G == Gaussians(g)  R == {res[i] : i \in 1 .. Len(res)}
      near(c) == Dist2(g.cells[c].m, p)
      root(c, d) == near(c) <= near(d) + 40 + near(d) \div 16      \* closer, up to rounding
  IN \/ \E c \in G : Cardinality(CellsOf(g.cells[c].m)) > 1
     \/ /\ R \subseteq G /\ Cardinality(R) = Len(res) /\ Len(res) = Min(k, Cardinality(G))
        /\ \A c \in R, d \in G \ R : near(c) <= near(d) + 200
OccValue(g, c) == IF c \notin Dom(g) THEN {-1}
                  ELSE IF Near(g.cells[c].occ, (8 * One) \div 10, 1) THEN {0, 99}
                  ELSE IF g.cells[c].occ > (8 * One) \div 10 THEN {99} ELSE {0}
\* the occupancy message: rows from the top
OccOK(g, msg) ==
  /\ msg.w = g.l + g.r + 1 /\ msg.h = g.u + g.d + 1 /\ Len(msg.data) = msg.w * msg.h
  /\ \A i \in 1 .. Len(msg.data) : msg.data[i] \in OccValue(g, <<((i - 1) % msg.w) - g.l, g.u - ((i - 1) \div msg.w)>>)
\* centre of the top left cell, in the world
CornerOK(g, o) == IsPose(o, Mul(Pose(g.x, g.y, g.n, g.k), Pose(-g.l * T, g.u * T, 0, 0)), 3)
\* a list of points is the means, placed by f
PointsOK(g, f, pts) ==
  LET G == Gaussians(g)
      at(c) == Moved(g.cells[c], f).m
      hit(c, i) == Near(at(c)[1], pts[i][1], 8) /\ Near(at(c)[2], pts[i][2], 8)
  IN /\ Len(pts) = Cardinality(G)
     /\ \A c \in G : \E i \in 1 .. Len(pts) : hit(c, i)
     /\ \A i \in 1 .. Len(pts) : \E c \in G : hit(c, i)
\* coarser grid: distributions pooled by cells f times as wide
CoarseCell(p, f) == <<(p[1] + (f * TM) \div 2) \div (f * TM), -((-p[2] + (f * TM) \div 2) \div (f * TM))>>
CoarseOK(g, f, cells) ==
  LET G == Gaussians(g)
      near(c) == \E dx, dy \in {-Eps, Eps} : CoarseCell(<<g.cells[c].m[1] + dx, g.cells[c].m[2] + dy>>, f) # CoarseCell(g.cells[c].m, f)
      K == {CoarseCell(g.cells[c].m, f) : c \in G}
      got == {<<cells[i].cx, cells[i].cy>> : i \in {j \in 1 .. Len(cells) : cells[j].g}}
  IN \/ \E c \in G : near(c)
     \/ /\ got = K
        /\ \A i \in 1 .. Len(cells) : cells[i].g =>
             LET cs == SeqOf({c \in G : CoarseCell(g.cells[c].m, f) = <<cells[i].cx, cells[i].cy>>})
                 ds == [j \in 1 .. Len(cs) |-> g.cells[cs[j]]]
             IN SameDist([n |-> cells[i].n, m |-> <<cells[i].mx, cells[i].my>>, S |-> cells[i].S], PoolAll(ds[1], ds, 2))

(***************************** properties *********************************)
\* a distribution is kept in the cell that contains its mean, and has support
WellPlaced == \A i \in 1 .. Len(grids) : \A c \in Gaussians(grids[i]) :
  LET x == grids[i].cells[c] IN c \in CellsOf(x.m) /\ x.n >= MinPoints /\ x.occ >= -2
InExtent == \A i \in 1 .. Len(grids) : \A c \in Dom(grids[i]) : InExt(grids[i], c)
Bounded == \A i \in 1 .. Len(grids) : \A c \in Dom(grids[i]) : Abs(grids[i].cells[c].occ) <= One
=============================================================================
