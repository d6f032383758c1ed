------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* The pose algebra of the library (eigen_tools.h, Slam2d_Policy), the     *)
(* covariance helpers, string splitting, and the choice of the next trial  *)
(* step of the More-Thuente line search, over exact numbers.               *)
(***************************************************************************)
EXTENDS SE2, FiniteSets, TLC
CONSTANT NR             \* number of pose registers
VARIABLE reg            \* pose registers
(******************************** poses ***********************************)
\* `to` relative to `from` in world axes, and its application
Shift(from, to) == [x |-> to.x * P5(Max(from.d, to.d) - to.d) - from.x * P5(Max(from.d, to.d) - from.d),
                    y |-> to.y * P5(Max(from.d, to.d) - to.d) - from.y * P5(Max(from.d, to.d) - from.d),
                    d |-> Max(from.d, to.d), n |-> to.n - from.n, k |-> (to.k - from.k) % 4]
Plus(a, b) == [x |-> a.x * P5(Max(a.d, b.d) - a.d) + b.x * P5(Max(a.d, b.d) - b.d),
               y |-> a.y * P5(Max(a.d, b.d) - a.d) + b.y * P5(Max(a.d, b.d) - b.d),
               d |-> Max(a.d, b.d), n |-> a.n + b.n, k |-> (a.k + b.k) % 4]
\* maps coordinates seen from `from` to coordinates seen from `to`
Frames(from, to) == Mul(Inv(to), from)
ErrorOf(xi, xj, z) == Mul(Inv(z), Mul(Inv(xi), xj))
\* norm o (in thousandths) of a translation (x, y)/5^d, compared in hundredths (tenths when it is long)
IsNorm(o, a) == LET f == P5(a.d)
                    c == IF Abs(a.x) + Abs(a.y) < 100 * f THEN 100 ELSE 10
                    u == (a.x * c) \div f   v == (a.y * c) \div f   s == u * u + v * v
                    q == o \div (1000 \div c)
                IN o >= 0 /\ (q - 3 < 0 \/ (q - 3) * (q - 3) <= s) /\ (q + 3) * (q + 3) >= s
\* derivatives of ErrorOf for a small motion of xi and of xj (see RobustEdges)
RotBack(n, k) == LET r == CS(-n, -k) IN << <<r[1], -r[2]>>, <<r[2], r[1]>> >>
MatOK(o, rows, den) == \A r \in 1 .. Len(rows), c \in 1 .. Len(rows[1]) : Near(o[r][c] * den, 1000 * rows[r][c], 2 * den)
JacOK(oi, oj, xi, xj, z) ==
  LET n == z.n + xi.n   k == z.k + xi.k   g == P5(Abs(n))
      D == Max(xi.d, xj.d)  h == P5(D)
      dx == xj.x * P5(D - xj.d) - xi.x * P5(D - xi.d)
      dy == xj.y * P5(D - xj.d) - xi.y * P5(D - xi.d)
      R == RotBack(n, k)
      w == Turn(-n, -k, <<dx, dy>>)
      f == g * h
  IN /\ MatOK(oi, << <<-R[1][1] * h, -R[1][2] * h, w[2]>>, <<-R[2][1] * h, -R[2][2] * h, -w[1]>>, <<0, 0, -f>> >>, f)
     /\ MatOK(oj, << <<R[1][1] * h, R[1][2] * h, 0>>, <<R[2][1] * h, R[2][2] * h, 0>>, <<0, 0, f>> >>, f)
\* rotation matrix and translation as a matrix, in thousandths: dim 3 (planar) or 4 (space)
IsMat3(o, a) == LET r == CS(a.n, a.k)  g == P5(Abs(a.n))  f == P5(a.d) IN
  /\ MatOK(o, << <<r[1], -r[2]>>, <<r[2], r[1]>> >>, g)
  /\ Near(o[1][3] * f, 1000 * a.x, f) /\ Near(o[2][3] * f, 1000 * a.y, f)
  /\ o[3] = <<0, 0, 1000>>
IsMat4(o, a) == LET r == CS(a.n, a.k)  g == P5(Abs(a.n))  f == P5(a.d) IN
  /\ MatOK(o, << <<r[1], -r[2]>>, <<r[2], r[1]>> >>, g)
  /\ Near(o[1][4] * f, 1000 * a.x, f) /\ Near(o[2][4] * f, 1000 * a.y, f)
  /\ o[1][3] = 0 /\ o[2][3] = 0 /\ o[3] = <<0, 0, 1000, 0>> /\ o[4] = <<0, 0, 0, 1000>>
(***************************** covariances ********************************)
\* Q diag(d) Q' for the rotation by n 3-4-5 angles in the plane without axis ax; over 5^(2|n|)
Axes(ax) == CASE ax = 1 -> <<2, 3>> [] ax = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
Spectral(d, ax, n) ==
  LET r == CS(n, 0)  p == Axes(ax)  f == P5(2 * Abs(n)) IN
  [i \in 1 .. 3 |-> [j \in 1 .. 3 |->
     IF i = j /\ i = ax THEN d[i] * f
     ELSE IF i = ax \/ j = ax THEN 0
     ELSE IF i = p[1] /\ j = p[1] THEN r[1] * r[1] * d[p[1]] + r[2] * r[2] * d[p[2]]
     ELSE IF i = p[2] /\ j = p[2] THEN r[2] * r[2] * d[p[1]] + r[1] * r[1] * d[p[2]]
     ELSE r[1] * r[2] * (d[p[1]] - d[p[2]])]]
Max3(d) == Max(d[1], Max(d[2], d[3]))
\* eigenvalues in hundredths: none less than a hundredth of the largest
Floored(d) == [i \in 1 .. 3 |-> Max(100 * d[i], Max3(d))]
Invertible(d) == d[1] + d[2] + d[3] > 0
\* covariance of a motion added to another one; t = [x, y, 0, n, k] the motion, C and O symmetric by rows
M3(A, B) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
T3(A) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[j][i]]]
Chain(C, O, t) ==
  LET r == CS(t.n, t.k)  f == P5(Abs(t.n))  w == Turn(t.n, t.k, <<t.x, t.y>>)
      A == << <<f, 0, -w[2]>>, <<0, f, w[1]>>, <<0, 0, f>> >>
      B == << <<r[1], -r[2], 0>>, <<r[2], r[1], 0>>, <<0, 0, f>> >>
      X == M3(M3(A, C), T3(A))
      Y == M3(M3(B, O), T3(B))
  IN [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> X[i][j] + Y[i][j]]]        \* over f*f
(******************************** strings *********************************)
\* strings are sequences of symbols
At(s, p, t) == p + Len(t) - 1 <= Len(s) /\ \A q \in 1 .. Len(t) : s[p + q - 1] = t[q]
Has(s, t) == \E p \in 1 .. Len(s) : At(s, p, t)
First(s, t) == CHOOSE p \in 1 .. Len(s) : At(s, p, t) /\ \A q \in 1 .. p - 1 : ~At(s, q, t)
RECURSIVE Split(_, _)
Split(s, t) == IF Len(t) = 0 \/ ~Has(s, t) THEN <<s>>
               ELSE LET p == First(s, t) IN <<SubSeq(s, 1, p - 1)>> \o Split(SubSeq(s, p + Len(t), Len(s)), t)
RECURSIVE Join(_, _)
Join(ps, t) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o t \o Join(Tail(ps), t)
\* what a caller relies on
SplitOK(s, t, ps) == /\ Len(ps) > 0 /\ Join(ps, t) = s
                     /\ (Len(t) > 0 => \A i \in 1 .. Len(ps) : ~Has(ps[i], t))
                     /\ (Len(t) = 0 => ps = <<s>>)
(****************************** line search *******************************)
\* A function with derivative c(a - m)(a - p), or c(a - m) when quad; values are six times as large.
\* Positions are integers. m is its local minimiser.
F6(h, a) == IF h.quad THEN 3 * h.c * (a - h.m) * (a - h.m)
            ELSE h.c * (2 * a * a * a - 3 * (h.m + h.p) * a * a + 6 * h.m * h.p * a)
G(h, a) == IF h.quad THEN h.c * (a - h.m) ELSE h.c * (a - h.m) * (a - h.p)
Minimiser(h) == IF h.quad THEN h.c > 0 ELSE (h.c > 0 /\ h.m > h.p) \/ (h.c < 0 /\ h.m < h.p)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* the interval [lower end, upper end, trial] -> new ends and whether it has converged
Interval(h, al, au, at) ==
  IF F6(h, at) > F6(h, al) THEN [l |-> al, u |-> at, done |-> FALSE]
  ELSE IF G(h, at) * (al - at) > 0 THEN [l |-> at, u |-> au, done |-> FALSE]
  ELSE IF G(h, at) * (al - at) < 0 THEN [l |-> at, u |-> al, done |-> FALSE]
  ELSE [l |-> al, u |-> au, done |-> TRUE]
\* trial value times `den`, as <<num, den>>
SecG(h, al, at) == LET gl == G(h, al)  gt == G(h, at) IN <<al * (gl - gt) - (al - at) * gl, gl - gt>>
QuadF(h, al, at) == LET gl == G(h, al)
                        df == F6(h, al) - F6(h, at)                 \* 6 (f_l - f_t)
                        den == 2 * (6 * gl * (al - at) - df)        \* 12 (g_l - df/(al-at)) (al-at) / ...
                    IN <<al * den - (al - at) * (6 * gl * (al - at)), den>>
Pos(r) == IF r[2] < 0 THEN <<-r[1], -r[2]>> ELSE r
Dist(a, r) == LET q == Pos(r) IN <<Abs(a * q[2] - q[1]), q[2]>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Closer(a, x, y) == LET dx == Dist(a, x)  dy == Dist(a, y) IN Less(dx, dy)
Tied(a, x, y) == LET dx == Dist(a, x)  dy == Dist(a, y) IN ~Less(dx, dy) /\ ~Less(dy, dx)
\* the admissible next trials (more than one when two candidates are equally far)
Trials(h, al, au, at) ==
  LET m == <<h.m, 1>> IN
  IF F6(h, at) > F6(h, al) THEN
    LET q == Pos(QuadF(h, al, at))
        mid == <<h.m * q[2] + q[1], 2 * q[2]>>
    IN (IF Closer(al, m, q) \/ Tied(al, m, q) THEN {m} ELSE {}) \union (IF ~Closer(al, m, q) THEN {mid} ELSE {})
  ELSE LET s == Pos(SecG(h, al, at)) IN
  IF Sgn(G(h, at)) * Sgn(G(h, al)) < 0 THEN
    (IF ~Closer(at, m, s) THEN {m} ELSE {}) \union (IF Closer(at, m, s) \/ Tied(at, m, s) THEN {s} ELSE {})
  ELSE IF Abs(G(h, at)) <= Abs(G(h, al)) THEN
    LET cap == <<100 * at + 66 * (au - at), 100>>
        lim(x) == IF at > al THEN (IF Less(cap, x) THEN cap ELSE x) ELSE (IF Less(x, cap) THEN cap ELSE x)
        far == s[2] = 0
    IN IF far THEN {lim(m)}
       ELSE (IF Closer(at, m, s) \/ Tied(at, m, s) THEN {lim(m)} ELSE {}) \union (IF ~Closer(at, m, s) THEN {lim(s)} ELSE {})
  ELSE {m}
\* a search position in the sense of More and Thuente: the trial lies downhill of the better end, and
\* when only the other end bounds the step, that end lies uphill behind a minimum
Bounding(h, al, at) == F6(h, at) <= F6(h, al) /\ Sgn(G(h, at)) * Sgn(G(h, al)) >= 0 /\ Abs(G(h, at)) > Abs(G(h, al))
Proper(h, al, au, at) == Minimiser(h) /\ al # at /\ au # at /\ G(h, al) * (at - al) < 0
                         /\ (Bounding(h, al, at) => (h.m - at) * (h.m - au) <= 0 /\ (at - al) * (at - au) < 0
                                                     /\ Sgn(G(h, at)) * Sgn(G(h, au)) <= 0)
CloseRat(o, r) == LET q == Pos(r) IN
  IF Abs(o) > 60000 THEN Abs(q[1]) > 55 * q[2]
  ELSE IF Abs(q[1]) > 70 * q[2] THEN FALSE
  ELSE Near(o * q[2], 1000 * q[1], 3 * q[2])
=============================================================================
