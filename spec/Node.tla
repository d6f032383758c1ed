--------------------------------- MODULE Node ---------------------------------
(***************************************************************************)
(* The ROS node: messages in, calls of the algorithm, transforms and       *)
(* products out.  odo: odometry at the last scan used; pose: answer of the *)
(* algorithm to it; tf: pose of the odometry frame in the map; n: scans    *)
(* used.                                                                   *)
(***************************************************************************)
EXTENDS SE2
FreshNode == [on |-> FALSE, odo |-> Id, pose |-> Id, tf |-> Id, n |-> 0]
\* what the algorithm is told
Motion(s, odo) == IF s.on THEN Reduced(Between(s.odo, odo)) ELSE Id
NodeUse(s, odo, answer) ==
  LET pose == IF s.on THEN answer ELSE Id
  IN [on |-> TRUE, odo |-> odo, pose |-> pose, tf |-> Reduced(Mul(pose, Inv(odo))), n |-> s.n + 1]
\* a message is used if the frames are known at its time, and enough is seen
MinPoints == 400
Usable(frames, points) == frames /\ points >= MinPoints
NodeMsg(s, frames, points, odo, answer) == IF Usable(frames, points) THEN NodeUse(s, odo, answer) ELSE s
===============================================================================
