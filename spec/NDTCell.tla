------------------------------ MODULE NDTCell ------------------------------
(***************************************************************************)
(* NDT cells.  A cell collects points, turns them into a normal            *)
(* distribution (count n, sum s = n*mean, scatter S = (n-1)*covariance)    *)
(* and keeps a bounded log-odds occupancy.  Points are integer vectors (q  *)
(* ticks to a metre); the scatter is a symmetric matrix <<xx, xy, xz, yy,  *)
(* yz, zz>> in ticks^2, K times; occupancy is in millionths.               *)
(*                                                                         *)
(* What the distribution of a batch has to be is specified up to the       *)
(* regularisation of the estimator; everything else (counts, means,        *)
(* pooling of scatters, rotation) is exact up to rounding and to the       *)
(* eigenvalue floor, which adds at most 1/100 of the largest eigenvalue.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS K,          \* fixed point factor of scatters
          MinPoints,  \* points needed for a distribution
          One,        \* occupancy 1.0
          Hit, Miss   \* log-odds of one point, and of one ray through a cell without distribution

VARIABLE cells        \* Seq of cells

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Near(a, b, t) == Abs(a - b) <= t
Clamp(x) == Max(-One, Min(One, x))

V0 == <<0, 0, 0>>
M0 == <<0, 0, 0, 0, 0, 0>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
\* position of entry (i,j) of a symmetric matrix
At(i, j) == IF i <= j THEN (CASE i = 1 -> j [] i = 2 -> j + 2 [] OTHER -> 6) ELSE (CASE j = 1 -> i [] j = 2 -> i + 2 [] OTHER -> 6)
Row(k) == CASE k \in {1, 2, 3} -> 1 [] k \in {4, 5} -> 2 [] OTHER -> 3
Col(k) == CASE k = 1 -> 1 [] k \in {2, 4} -> 2 [] OTHER -> 3
IsDiag(k) == k \in {1, 4, 6}
Trace3(m) == m[1] + m[4] + m[6]
Outer(p) == [k \in 1 .. 6 |-> p[Row(k)] * p[Col(k)]]
MAdd(a, b) == [k \in 1 .. 6 |-> a[k] + b[k]]

\* a batch of points: count, sum, second moments
NoPts == [n |-> 0, s |-> V0, Q |-> M0]
PtAdd(b, p) == [n |-> b.n + 1, s |-> VAdd(b.s, p), Q |-> MAdd(b.Q, Outer(p))]
RECURSIVE PtsAdd(_, _, _)
PtsAdd(b, ps, i) == IF i > Len(ps) THEN b ELSE PtsAdd(PtAdd(b, ps[i]), ps, i + 1)

NewCell == [pend |-> NoPts, g |-> FALSE, n |-> 0, s |-> V0, S |-> M0, occ |-> 0]

(***************************** distributions ******************************)
\* scatter of a batch about its mean, K times
Scatter(b) == [k \in 1 .. 6 |-> K * b.Q[k] - (K * b.s[Row(k)] * b.s[Col(k)]) \div b.n]
\* what a regularised estimate of it may be; unit = q*q
FreshOK(b, S, unit) ==
  LET C == Scatter(b)  n == b.n
      low == [k \in 1 .. 6 |-> (C[k] * (n - 1) * (n - 1)) \div (n * n)]
      slack == (Trace3(C) + 3 * unit * K) \div 100 + 5
  IN \A k \in 1 .. 6 :
       IF IsDiag(k) THEN S[k] >= low[k] - 5 /\ S[k] <= C[k] + unit * K + slack
       ELSE S[k] >= Min(low[k], C[k]) - slack /\ S[k] <= Max(low[k], C[k]) + slack
\* scatter of the union of two samples (about the common mean)
Pooled(n1, s1, S1, n2, s2, S2) ==
  LET A == <<n2 * s1[1] - n1 * s2[1], n2 * s1[2] - n1 * s2[2], n2 * s1[3] - n1 * s2[3]>>
  IN [k \in 1 .. 6 |-> S1[k] + S2[k] + (((A[Row(k)] * A[Col(k)]) \div (n1 * n2)) * K) \div (n1 + n2)]
PooledOK(n1, s1, S1, n2, s2, S2, S) ==
  LET P == Pooled(n1, s1, S1, n2, s2, S2)
      slack == Trace3(P) \div 50 + 10 + 2 * (K \div (n1 + n2))
  IN \A k \in 1 .. 6 : Near(S[k], P[k], slack) /\ (IsDiag(k) => S[k] >= P[k] - 10 - 2 * (K \div (n1 + n2)) - Trace3(P) \div 50)

\* rotations of the axes: row i of the matrix is sg[i] at column ax[i]
RotV(r, v) == [i \in 1 .. 3 |-> r.sg[i] * v[r.ax[i]]]
RotM(r, m) == [k \in 1 .. 6 |-> r.sg[Row(k)] * r.sg[Col(k)] * m[At(r.ax[Row(k)], r.ax[Col(k)])]]

(******************************** actions *********************************)
AddedPts(c, ps) == [c EXCEPT !.pend = PtsAdd(@, ps, 1)]

\* occ2 is the occupancy after the call, S2 the scatter after it
ComputedOcc(c) == Clamp(c.occ + Hit * c.pend.n)
Computed(c, occ2, pos, S2) ==
  LET d == [c EXCEPT !.occ = occ2] IN
  IF ~pos THEN [d EXCEPT !.g = FALSE, !.n = c.pend.n]
  ELSE IF c.pend.n < MinPoints THEN [d EXCEPT !.n = IF c.g THEN @ ELSE c.pend.n]
  ELSE [d EXCEPT !.g = TRUE, !.n = IF c.g THEN @ + c.pend.n ELSE c.pend.n,
                 !.s = IF c.g THEN VAdd(@, c.pend.s) ELSE c.pend.s,
                 !.S = S2, !.pend = NoPts]

MergeTakes(o) == o.g /\ o.n > 2
MergedOcc(c, o) == IF ~MergeTakes(o) THEN c.occ ELSE IF c.g THEN Clamp(c.occ + Hit * o.n) ELSE o.occ
Merged(c, o, occ2, S2) ==
  IF ~MergeTakes(o) THEN c
  ELSE IF ~c.g THEN o
  ELSE [c EXCEPT !.n = @ + o.n, !.s = VAdd(@, o.s), !.S = S2, !.occ = occ2, !.g = TRUE]

\* rays
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
L1(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
RayOcc(c, a, e, w, occ2, q) ==
  IF ~c.g THEN Near(occ2, Clamp(c.occ - Miss * w), 5)
  ELSE LET off == VSub(c.s, Scale(c.n, e))                    \* n * (mean - end)
           dist == L1(off) * 100
           u == VSub(e, a)
           x == Cross(u, off)
           y == <<x[1] \div c.n, x[2] \div c.n, x[3] \div c.n>>
           uu == u[1] * u[1] + u[2] * u[2] + u[3] * u[3]
           tr == Trace3(c.S) \div ((c.n - 1) * K) + 1
           full == Clamp(c.occ - Hit * w)
           \* nothing is known about a cell from a ray without length
           keeps == occ2 = c.occ
           atEnd == occ2 = One
           some == /\ occ2 <= c.occ + 5 /\ occ2 >= full - 5 - w
                   \* through the mean, well before the end: all of it
                   /\ (x = V0 /\ Abs(off[1]) + Abs(off[2]) + Abs(off[3]) >= c.n * q) => Near(occ2, full, 5 + w)
                   \* passing far from the distribution: nothing
                   /\ (y[1] * y[1] + y[2] * y[2] + y[3] * y[3] > uu * 22 * tr) => Near(occ2, c.occ, 5 + 30 * w)
       IN \* the ray ends in this distribution
          IF dist < c.n * q THEN atEnd
          ELSE IF dist = c.n * q THEN atEnd \/ (IF u = V0 THEN keeps ELSE some)
          ELSE IF u = V0 THEN keeps ELSE some
Rayed(c, occ2, pos, g2) == [c EXCEPT !.occ = occ2, !.g = @ /\ IF pos THEN TRUE ELSE IF occ2 < c.occ THEN FALSE ELSE g2]

Transformed(c, r, t, S2) ==
  IF ~c.g THEN c ELSE [c EXCEPT !.s = VAdd(RotV(r, @), Scale(c.n, t)), !.S = S2]
SetOccupied(c, v) == [c EXCEPT !.occ = IF v < 0 THEN -One ELSE IF v >= 100 THEN One ELSE v * (One \div 100)]

(****************************** properties ********************************)
\* the documented scale: -1 for free, otherwise percent
PercentOK(p, occ) ==
  IF occ >= One THEN p \in {99, 100}      \* occ is rounded
  ELSE IF Abs(occ) <= 2 THEN p \in {-1, 0}
  ELSE IF occ < 0 THEN p = -1
  ELSE p >= 0 /\ p <= 100 /\ p * (One \div 100) <= occ + 2 /\ occ - 2 < (p + 1) * (One \div 100)
Bounded == \A i \in 1 .. Len(cells) : -One <= cells[i].occ /\ cells[i].occ <= One
GaussianHasPoints == \A i \in 1 .. Len(cells) : cells[i].g => cells[i].n >= MinPoints
\* a cell with a distribution is occupied
GaussianOccupied == \A i \in 1 .. Len(cells) : cells[i].g => cells[i].occ >= 0
=============================================================================
