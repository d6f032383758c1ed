------------------------------- MODULE FrontEnd -------------------------------
(***************************************************************************)
(* The SLAM front end: odometry and scan matching in, pose of the robot,   *)
(* frames of the pose graph and the local window out.  Lengths are in      *)
(* units of 5 cm.                                                          *)
(*   w: pose by the scan matcher      p: pose in the map                   *)
(*   f: pose of the current frame     d: pose of the robot in that frame   *)
(*   u, small: odometry not used yet (small: turned by so many microrad)   *)
(*   nodes: finished frames: pose, motion from the frame before, scans     *)
(*   scans: scans of the current frame, with the pose in it                *)
(*   win: scans of the local window with their pose by the matcher         *)
(***************************************************************************)
EXTENDS SE2
FreshFront == [on |-> FALSE, w |-> Id, p |-> Id, f |-> Id, d |-> Id, last |-> Id, u |-> Id, small |-> 0,
               nodes |-> << >>, scans |-> << >>, win |-> << >>, matched |-> 0]
\* length against h half units
Longer(a, h) == 4 * (a.x * a.x + a.y * a.y) > h * h * P5(2 * a.d)
AsLong(a, h) == 4 * (a.x * a.x + a.y * a.y) = h * h * P5(2 * a.d)
\* scans are only matched after 20 cm or a tenth of a radian
Enough(u, small) == Longer(u, 8) \/ u.n # 0 \/ u.k % 4 # 0 \/ Abs(small) > 100000
Close(u, small) == AsLong(u, 8) \/ Abs(small) = 100000
With(s, o) == Reduced(Mul(s.u, o))
\* what the robot is told
ShownPose(s) == Reduced(Mul(s.p, s.u))
Guess(s, o) == Reduced(Mul(s.w, With(s, o)))
FrontStart(s, id) == [s EXCEPT !.on = TRUE, !.scans = <<[d |-> Id, id |-> id]>>, !.win = <<[m |-> Id, id |-> id]>>]
FrontWait(s, o, r) == [s EXCEPT !.u = With(s, o), !.small = @ + r]
FrontMatch(s, o, out, id, gen) ==
  LET w == IF out.hit THEN out.m ELSE Guess(s, o)
      inc == Reduced(Between(s.w, w))
      d == Reduced(Mul(s.d, inc))
      p == Reduced(Mul(s.p, inc))
      done == Longer(d, gen)
      t == [s EXCEPT !.w = w, !.p = p, !.u = Id, !.small = 0,
                     !.win = IF out.hit THEN Append(@, [m |-> w, id |-> id]) ELSE @,
                     !.matched = IF out.hit THEN @ + 1 ELSE @]
  IN IF done THEN [t EXCEPT !.nodes = Append(@, [p |-> s.f, c |-> s.last, scans |-> s.scans]), !.last = d,
                            !.f = p, !.d = Id, !.scans = <<[d |-> Id, id |-> id]>>]
     ELSE [t EXCEPT !.d = d, !.scans = Append(@, [d |-> d, id |-> id])]
\* optimisation of the graph moves the last finished frame, and all that follows, by b
FrontBend(s, b) == [s EXCEPT !.nodes[Len(s.nodes)].p = Reduced(Mul(b, @)), !.p = Reduced(Mul(b, @)), !.f = Reduced(Mul(b, @))]
FrontUpdate(s, o, r, out, id, gen) ==
  IF ~s.on THEN FrontStart(s, id)
  ELSE IF Enough(With(s, o), s.small + r) THEN FrontMatch(s, o, out, id, gen) ELSE FrontWait(s, o, r)
=============================================================================
