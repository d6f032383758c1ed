-------------------------------- MODULE MCNode --------------------------------
EXTENDS Node, TLC
CONSTANTS Starts, Motions, Errors, Depth
VARIABLES s, odo, first, given, n, op
vars == <<s, odo, first, given, n, op>>
\* odo: true odometry; first: that of the first scan used; given: all motion the algorithm was told
P4(a) == <<a.x, a.y, a.n, a.k>>
Init == s = FreshNode /\ odo \in Starts /\ first = Id /\ given = Id /\ n = 0 /\ op = <<"reset">>
Go(frames, points) ==
  /\ n < Depth /\ n' = n + 1
  /\ \E m \in Motions, e \in Errors :
       /\ odo' = Reduced(Mul(odo, m))
       /\ (Usable(frames, points) \/ e = Id)
       /\ LET answer == Reduced(Mul(Mul(s.pose, Motion(s, odo')), e)) IN
          /\ s' = NodeMsg(s, frames, points, odo', answer)
          /\ op' = <<"msg", P4(odo'), IF frames THEN 1 ELSE 0, points, P4(answer)>>
          /\ first' = (IF s'.n = 1 /\ s.n = 0 THEN odo' ELSE first)
          /\ given' = (IF s'.n # s.n THEN Reduced(Mul(given, Motion(s, odo'))) ELSE given)
Used == Go(TRUE, 400)
Unknown == Go(FALSE, 400)
Blind == Go(TRUE, 399)
Next == Used \/ Unknown \/ Blind
Spec == Init /\ [][Next]_vars
\* map -> odometry -> robot leads to where the algorithm says
Agree == s.on => SamePose(Mul(s.tf, s.odo), s.pose)
\* motion of scans that could not be used is not lost
Conserved == s.on => SamePose(Mul(first, given), s.odo)
Early == ~s.on => s.tf = Id /\ s.n = 0
===============================================================================
