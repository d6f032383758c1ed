---------------------------- MODULE RobustEdges ----------------------------
(***************************************************************************)
(* The robust factor-graph elements: switch variables, switchable SE2      *)
(* edges, switch priors, and max-mixture edges between poses or from a     *)
(* pose to a landmark.  Poses are exact (module SE2); switches count in    *)
(* units of 1/U; information matrices are symmetric integer matrices given *)
(* by their upper triangle.                                                *)
(***************************************************************************)
EXTENDS SE2, FiniteSets, TLC
CONSTANTS U,        \* a switch of 1
          LnT       \* LnT[i] = ln(i) in 1/1000
VARIABLES poses,    \* Seq of poses
          pts,      \* Seq of <<x, y>>
          sws,      \* Seq of [v, stack]
          el        \* Seq of elements
(******************************** switches ********************************)
Clamp(x) == Max(0, Min(U, x))
NewSwitch == [v |-> 0, stack |-> << >>]
SwSet(s, x) == [s EXCEPT !.v = x]
SwUpdate(s, d) == [s EXCEPT !.v = Clamp(@ + d)]
SwPush(s) == [s EXCEPT !.stack = Append(@, s.v)]
SwPop(s) == IF s.stack = << >> THEN s ELSE [s EXCEPT !.v = s.stack[Len(s.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]
SwDiscard(s) == IF s.stack = << >> THEN s ELSE [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
SwOrigin(s) == [s EXCEPT !.v = 0]
(******************************** SE2 edges *******************************)
\* error of a relative pose measurement: the motion that remains
Resid(i, j, m) == Mul(Inv(m), Between(poses[i], poses[j]))
\* Observed error o in thousandths (angle: microradians), scaled by the switch s/U
ErrOK(o, r, s, one) ==
  LET f == P5(r.d) * one IN
  /\ Near(o[1] * f, 1000 * r.x * s, 2 * f) /\ Near(o[2] * f, 1000 * r.y * s, 2 * f)
  /\ \/ Near(o[3] * one, Angle(r.n, r.k) * s, 20 * one)
     \/ HalfTurn(r) /\ Near(o[3] * one, - Angle(r.n, r.k) * s, 20 * one)
\* The derivatives: moving the ends by a translation in the world or by a rotation.
\* Matrices are given by rows, in thousandths.
MatOK(o, rows, den, s, one) ==
  \A r \in 1 .. Len(rows), c \in 1 .. Len(rows[1]) : Near(o[r][c] * den * one, 1000 * rows[r][c] * s, 2 * den * one)
\* rotation by -(n,k), as numerators over 5^|n|
RotBack(n, k) == LET r == CS(-n, -k) IN << <<r[1], -r[2]>>, <<r[2], r[1]>> >>
JacOK(oi, oj, i, j, m, s, one) ==
  LET n == m.n + poses[i].n
      k == m.k + poses[i].k
      f == P5(Abs(m.n) + Abs(poses[i].n))               \* common denominator
      g == P5(Abs(n))
      R == RotBack(n, k)
      w == Turn(-n, -k, <<poses[j].x - poses[i].x, poses[j].y - poses[i].y>>)   \* over g
      q == f \div g
  IN /\ MatOK(oi, << <<-R[1][1] * q, -R[1][2] * q, w[2] * q>>, <<-R[2][1] * q, -R[2][2] * q, -w[1] * q>>, <<0, 0, -f>> >>, f, s, one)
     /\ MatOK(oj, << <<R[1][1] * q, R[1][2] * q, 0>>, <<R[2][1] * q, R[2][2] * q, 0>>, <<0, 0, f>> >>, f, s, one)
(****************************** landmark edges ****************************)
\* landmark p seen from pose i minus measurement m: [x, y, d]
PtResid(i, p, m) == LET t == Turn(-poses[i].n, -poses[i].k, <<p[1] - poses[i].x, p[2] - poses[i].y>>)
                        f == P5(Abs(poses[i].n))
                    IN [x |-> t[1] - m[1] * f, y |-> t[2] - m[2] * f, d |-> Abs(poses[i].n)]
PtErrOK(o, r) == LET f == P5(r.d) IN Near(o[1] * f, 1000 * r.x, 2 * f) /\ Near(o[2] * f, 1000 * r.y, 2 * f)
PtJacOK(oi, oj, i, p) ==
  LET f == P5(Abs(poses[i].n))
      R == RotBack(poses[i].n, poses[i].k)
      w == Turn(-poses[i].n, -poses[i].k, <<p[1] - poses[i].x, p[2] - poses[i].y>>)
  IN /\ MatOK(oi, << <<-R[1][1], -R[1][2], w[2]>>, <<-R[2][1], -R[2][2], -w[1]>> >>, f, 1, 1)
     /\ MatOK(oj, R, f, 1, 1)
(******************************** mixtures ********************************)
Det3(a) == a[1] * (a[4] * a[6] - a[5] * a[5]) - a[2] * (a[2] * a[6] - a[5] * a[3]) + a[3] * (a[2] * a[5] - a[4] * a[3])
Det2(a) == a[1] * a[3] - a[2] * a[2]
\* errors in hundredths / centi-radians would be too coarse: keep 1/1000 of the cost.
\* e = (x, y) over 5^d and angle th in 1/10000 rad; result is e' inf e in thousandths
Sq(x, y, D) == (x * y) \div (D * D)
Chi3(r, a) ==
  LET f == P5(r.d)
      th == Angle(r.n, r.k) \div 100
      xx == (r.x * r.x * 1000) \div (f * f)
      xy == (r.x * r.y * 1000) \div (f * f)
      yy == (r.y * r.y * 1000) \div (f * f)
      xt == (r.x * th) \div (10 * f)
      yt == (r.y * th) \div (10 * f)
      tt == (th * th) \div 100000
  IN a[1] * xx + a[4] * yy + a[6] * tt + 2 * (a[2] * xy + a[3] * xt + a[5] * yt)
Chi2(r, a) ==
  LET f == P5(r.d) IN
  a[1] * ((r.x * r.x * 1000) \div (f * f)) + a[3] * ((r.y * r.y * 1000) \div (f * f)) + 2 * a[2] * ((r.x * r.y * 1000) \div (f * f))
\* twice the negative log likelihood, in thousandths, of a component [i, j, m, inf, wn, wd]
CostPose(c) == Chi3(Resid(c.i, c.j, c.m), c.inf) - LnT[Det3(c.inf)] - 2 * (LnT[c.wn] - LnT[c.wd])
CostPt(c) == Chi2(PtResid(c.i, pts[c.j], c.m), c.inf) - LnT[Det2(c.inf)] - 2 * (LnT[c.wn] - LnT[c.wd])
\* rounding slack of a cost
SlackPose(c) == 6 + (c.inf[1] + c.inf[4] + c.inf[6] + 2 * (Abs(c.inf[2]) + Abs(c.inf[3]) + Abs(c.inf[5]))) * 8
SlackPt(c) == 6 + (c.inf[1] + c.inf[3] + 2 * Abs(c.inf[2])) * 2
AmbiguousPose(e) == \E q \in 1 .. Len(e.comps) : HalfTurn(Resid(e.comps[q].i, e.comps[q].j, e.comps[q].m))
BestOK(e, b) ==
  /\ b \in 1 .. Len(e.comps)
  /\ IF e.t = "mix"
     THEN AmbiguousPose(e) \/ \A q \in 1 .. Len(e.comps) :
            CostPose(e.comps[b]) <= CostPose(e.comps[q]) + SlackPose(e.comps[b]) + SlackPose(e.comps[q])
     ELSE \A q \in 1 .. Len(e.comps) :
            CostPt(e.comps[b]) <= CostPt(e.comps[q]) + SlackPt(e.comps[b]) + SlackPt(e.comps[q])
\* the exact choice, for the design model (first of the best ones)
Cost(e, q) == IF e.t = "mix" THEN CostPose(e.comps[q]) ELSE CostPt(e.comps[q])
Best(e) == CHOOSE b \in 1 .. Len(e.comps) :
             \A q \in 1 .. Len(e.comps) : Cost(e, b) < Cost(e, q) \/ (Cost(e, b) = Cost(e, q) /\ b <= q)
(******************************** elements ********************************)
Switchable(i, j, s, m, inf) == [t |-> "sw", i |-> i, j |-> j, s |-> s, m |-> m, inf |-> inf]
Prior(s, m, inf) == [t |-> "pr", s |-> s, m |-> m, inf |-> inf]
Mixture(t, comps) == [t |-> t, comps |-> comps, best |-> 0]
=============================================================================
