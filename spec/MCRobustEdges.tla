-------------------------- MODULE MCRobustEdges --------------------------
(* One switch with its stack, a switchable edge, a prior and two mixtures over a few poses. *)
EXTENDS RobustEdges
CONSTANTS PoseChoices, Deltas, MaxStack
VARIABLE op
vars == <<poses, pts, sws, el, op>>
I3 == <<1, 0, 0, 1, 0, 1>>
Comps == << [i |-> 1, j |-> 2, m |-> Pose(1, 0, 0, 0), inf |-> I3, wn |-> 9, wd |-> 10],
            [i |-> 1, j |-> 3, m |-> Pose(1, 0, 0, 0), inf |-> <<4, 1, 0, 3, 0, 2>>, wn |-> 1, wd |-> 10] >>
PComps == << [i |-> 1, j |-> 1, m |-> <<1, 0>>, inf |-> <<1, 0, 1>>, wn |-> 9, wd |-> 10],
             [i |-> 2, j |-> 2, m |-> <<1, 0>>, inf |-> <<3, 1, 2>>, wn |-> 1, wd |-> 10] >>
Mx0 == Mixture("mix", Comps)
Pt0 == Mixture("mxy", PComps)
Init == /\ poses = [i \in 1 .. 4 |-> Id] /\ pts = [i \in 1 .. 3 |-> <<0, 0>>] /\ sws = <<NewSwitch>>
        /\ el = << Switchable(1, 2, 1, Pose(1, 0, 0, 1), I3), Prior(1, U, 3),
                   [Mx0 EXCEPT !.best = Best(Mx0)], [Pt0 EXCEPT !.best = Best(Pt0)] >>
        /\ op = <<"setup">>
Move == \E i \in {1, 3}, p \in PoseChoices : poses' = [poses EXCEPT ![i] = p] /\ op' = <<"pose", i, p.x, p.y, p.n, p.k>> /\ UNCHANGED <<pts, sws, el>>
MovePt == \E p \in {<<0, 0>>, <<2, 1>>} : pts' = [pts EXCEPT ![2] = p] /\ op' = <<"pt", 2, p[1], p[2]>> /\ UNCHANGED <<poses, sws, el>>
Sws(s, o) == sws' = <<s>> /\ op' = o /\ UNCHANGED <<poses, pts, el>>
Upd == \E d \in Deltas : Sws(SwUpdate(sws[1], d), <<"upd", 1, d>>)
Put == \E v \in {0, U} : Sws(SwSet(sws[1], v), <<"set", 1, v>>)
Push == Len(sws[1].stack) < MaxStack /\ Sws(SwPush(sws[1]), <<"push", 1>>)
Pop == sws[1].stack # << >> /\ Sws(SwPop(sws[1]), <<"pop", 1>>)
Discard == sws[1].stack # << >> /\ Sws(SwDiscard(sws[1]), <<"discard", 1>>)
Eval == \E q \in 1 .. 4, o \in {"err", "lin"} :
              /\ el' = (IF q > 2 THEN [el EXCEPT ![q] = [el[q] EXCEPT !.best = Best(el[q])]] ELSE el)
              /\ op' = <<o, q>> /\ UNCHANGED <<poses, pts, sws>>
Next == Move \/ MovePt \/ Upd \/ Put \/ Push \/ Pop \/ Discard \/ Eval
Spec == Init /\ [][Next]_vars
InUnit == sws[1].v \in 0 .. U
\* a pop undoes everything since its push
Undo == [][op'[1] = "pop" => sws'[1].v = sws[1].stack[Len(sws[1].stack)]]_vars
\* the chosen component is one of the likeliest by the tolerant rule used on recordings
Likely == [][op'[1] = "err" /\ op'[2] > 2 => BestOK(el'[op'[2]], el'[op'[2]].best)]_vars
\* the residual of a relative measurement is nothing exactly when the poses agree with it
Consistent == LET r == Resid(1, 2, el[1].m) IN (r.x = 0 /\ r.y = 0 /\ r.n = 0 /\ r.k = 0) <=> SamePose(poses[2], Mul(poses[1], el[1].m))
=============================================================================
