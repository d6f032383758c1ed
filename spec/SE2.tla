-------------------------------- MODULE SE2 --------------------------------
(***************************************************************************)
(* Exact planar rigid motions.  A rotation is k quarter turns times n      *)
(* rotations of the 3-4-5 triangle (cos 4/5, sin 3/5), so that sines and   *)
(* cosines are integers over 5^|n|.  A pose [x, y, d, n, k] has the        *)
(* translation (x, y) / 5^d.                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Near(a, b, t) == Abs(a - b) <= t
P5(d) == 5 ^ d
Base(n) == CASE n = 0 -> <<1, 0>> [] n = 1 -> <<4, 3>> [] n = 2 -> <<7, 24>> [] n = 3 -> <<-44, 117>>
             [] n = 4 -> <<-527, 336>> [] n = -1 -> <<4, -3>> [] n = -2 -> <<7, -24>> [] n = -3 -> <<-44, -117>>
             [] n = -4 -> <<-527, -336>>
\* cosine and sine, times 5^|n|
CS(n, k) == LET b == Base(n) IN
  CASE k % 4 = 0 -> b [] k % 4 = 1 -> <<-b[2], b[1]>> [] k % 4 = 2 -> <<-b[1], -b[2]>> [] OTHER -> <<b[2], -b[1]>>
\* rotate a vector; the result is 5^|n| times as long
Turn(n, k, v) == LET r == CS(n, k) IN <<r[1] * v[1] - r[2] * v[2], r[2] * v[1] + r[1] * v[2]>>
Pose(x, y, n, k) == [x |-> x, y |-> y, d |-> 0, n |-> n, k |-> k % 4]
Id == Pose(0, 0, 0, 0)
Mul(a, b) ==
  LET e == b.d + Abs(a.n)
      D == Max(a.d, e)
      t == Turn(a.n, a.k, <<b.x, b.y>>)
      fa == P5(D - a.d)
      fb == P5(D - e)
  IN [x |-> a.x * fa + t[1] * fb, y |-> a.y * fa + t[2] * fb, d |-> D, n |-> a.n + b.n, k |-> (a.k + b.k) % 4]
Inv(a) == LET t == Turn(-a.n, -a.k, <<-a.x, -a.y>>)
          IN [x |-> t[1], y |-> t[2], d |-> a.d + Abs(a.n), n |-> -a.n, k |-> (-a.k) % 4]
Between(a, b) == Mul(Inv(a), b)      \* b seen from a
\* smallest denominator
RECURSIVE Reduced(_)
Reduced(a) == IF a.d > 0 /\ a.x % 5 = 0 /\ a.y % 5 = 0 THEN Reduced([a EXCEPT !.x = @ \div 5, !.y = @ \div 5, !.d = @ - 1]) ELSE a
SamePose(a, b) == Reduced(a) = Reduced(b)
\* angle in microradians, in (-pi, pi]
TwoPi == 6283185
HalfTurn(a) == a.n = 0 /\ a.k % 4 = 2
Wrap(x) == LET y == x % TwoPi IN IF y > 3141593 THEN y - TwoPi ELSE y
Angle(n, k) == Wrap(n * 643501 + (k % 4) * 1570796)
SameAngle(x, y, t) == LET z == Abs(x - y) % TwoPi IN z <= t \/ TwoPi - z <= t
\* a recorded pose <<x, y, angle>> in thousandths and microradians
IsPose(o, a, t) == Near(o[1] * P5(a.d), a.x * 1000, t * P5(a.d)) /\ Near(o[2] * P5(a.d), a.y * 1000, t * P5(a.d))
                   /\ SameAngle(o[3], Angle(a.n, a.k), 10)
=============================================================================
