------------------------------ MODULE MCFrontEnd ------------------------------
EXTENDS FrontEnd, FiniteSets, TLC
CONSTANTS Motions, Errors, Gen, Depth, Bends
VARIABLES s, odo, exact, bend, bends, at, n, op
vars == <<s, odo, exact, bend, bends, at, n, op>>
\* odo: all motion so far; exact: every answer of the matcher was its guess; bend: what optimisations did;
\* at: pose in the map when each scan was used (before later optimisations)
Init == s = FreshFront /\ odo = Id /\ exact = TRUE /\ bend = Id /\ bends = 0 /\ at = << >> /\ n = 0 /\ op = <<"reset">>
P4(a) == <<a.x, a.y, a.n, a.k>>
Start == /\ ~s.on /\ s' = FrontStart(s, 1) /\ n' = 1 /\ at' = <<Id>> /\ UNCHANGED <<odo, exact, bend, bends>>
         /\ op' = <<"update", <<7, 3, 0, 1>>, 0, <<9, 9, 0, 1>>>>
Wait == s.on /\ n < Depth /\ \E o \in Motions :
         /\ ~Enough(With(s, o), 0)
         /\ s' = FrontWait(s, o, 0) /\ n' = n + 1 /\ odo' = Reduced(Mul(odo, o)) /\ at' = Append(at, Id)
         /\ op' = <<"update", P4(o), 1, <<50, 50, 0, 2>>>>
         /\ UNCHANGED <<exact, bend, bends>>
Matched(hit) == s.on /\ n < Depth /\ \E o \in Motions : \E e \in IF hit THEN Errors ELSE {Id} :
         LET m == Reduced(Mul(Guess(s, o), e)) IN
         /\ Enough(With(s, o), 0)
         /\ s' = FrontMatch(s, o, [hit |-> hit, m |-> m], n + 1, Gen) /\ n' = n + 1 /\ odo' = Reduced(Mul(odo, o))
         /\ exact' = (exact /\ e = Id) /\ at' = Append(at, s'.p)
         /\ op' = <<"update", P4(o), IF hit THEN 1 ELSE 0, P4(m)>>
         /\ UNCHANGED <<bend, bends>>
Hit == Matched(TRUE)
Miss == Matched(FALSE)
\* the frame just finished closed a loop
Bend == /\ s.nodes # << >> /\ s.d = Id /\ s.u = Id /\ Len(s.scans) = 1 /\ op[1] = "update"
        /\ \E b \in Bends : s' = FrontBend(s, b) /\ bend' = Reduced(Mul(b, bend)) /\ bends' = bends + 1 /\ op' = <<"bend">>
        /\ UNCHANGED <<odo, exact, at, n>>
Next == Start \/ Wait \/ Hit \/ Miss \/ Bend
Spec == Init /\ [][Next]_vars
Composed == SamePose(s.p, Mul(s.f, s.d))
\* map and matcher only ever drift apart by what optimisations did
OneDrift == SamePose(s.p, Mul(bend, s.w))
\* no motion is lost and none is counted twice
Conserved == (exact /\ bends = 0) => SamePose(ShownPose(s), odo)
NoneWaiting == ~Enough(s.u, s.small)
Chained == /\ \A i \in 2 .. Len(s.nodes) : bends = 0 => SamePose(s.nodes[i].p, Mul(s.nodes[i - 1].p, s.nodes[i].c))
           /\ \A i \in 2 .. Len(s.nodes) : Longer(s.nodes[i].c, Gen)
           /\ s.nodes # << >> => (SamePose(s.f, Mul(s.nodes[Len(s.nodes)].p, s.last)) /\ Longer(s.last, Gen))
Inside == ~Longer(s.d, Gen) /\ \A i \in DOMAIN s.nodes : \A k \in DOMAIN s.nodes[i].scans : ~Longer(s.nodes[i].scans[k].d, Gen)
\* every scan is kept where the robot was when it was taken
Kept(p, scans) == \A k \in DOMAIN scans : SamePose(Mul(p, scans[k].d), at[scans[k].id])
AllKept == bends = 0 => Kept(s.f, s.scans) /\ \A i \in DOMAIN s.nodes : Kept(s.nodes[i].p, s.nodes[i].scans)
\* a scan is used in one frame only, and the window has the matched ones
Once == LET ids == [i \in 1 .. Len(s.nodes) |-> {s.nodes[i].scans[k].id : k \in DOMAIN s.nodes[i].scans}]
        IN /\ \A i, j \in DOMAIN ids : i # j => ids[i] \intersect ids[j] = {}
           /\ Len(s.win) = s.matched + (IF s.on THEN 1 ELSE 0)
=============================================================================
