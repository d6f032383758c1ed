---------------------------- MODULE MCNDTMapper ----------------------------
(* Frames are sets of scan ids at a pose; the map is the sequence of what was drawn. *)
EXTENDS NDTMapper, FiniteSets
CONSTANTS NF, Times, MaxScans, MaxDrawn, Poses
VARIABLES list, time, content, pose, drawn, gone, scans, op
vars == <<list, time, content, pose, drawn, gone, scans, op>>
F == 1 .. NF
Init == /\ list = << >> /\ time = [i \in F |-> 0] /\ content = [i \in F |-> {}] /\ pose = [i \in F |-> 0]
        /\ drawn = << >> /\ gone = {} /\ scans = 0 /\ op = <<"reset">>
Image(i) == <<i, content[i], pose[i]>>
Add == \E i \in F, t \in Times :
         /\ ~Listed(list, i) /\ content[i] # {} /\ Len(drawn) < MaxDrawn
         /\ \A k \in 1 .. Len(list) : time[list[k]] # t
         /\ list' = Append(list, i) /\ time' = [time EXCEPT ![i] = t] /\ drawn' = Append(drawn, Image(i))
         /\ gone' = gone \ content[i]
         /\ op' = <<"add", i, t>> /\ UNCHANGED <<content, pose, scans>>
Scan == \E i \in F : scans < MaxScans /\ scans' = scans + 1 /\ content' = [content EXCEPT ![i] = @ \cup {scans + 1}]
                     /\ op' = <<"scan", i>> /\ UNCHANGED <<list, time, pose, drawn, gone>>
Remove == \E i \in F :
                       /\ list' = Without(list, i) /\ op' = <<"remove", i>>
                       /\ gone' = IF Listed(list, i) THEN gone \cup content[i] ELSE gone
                       /\ UNCHANGED <<time, content, pose, drawn, scans>>
Update == \E i \in F, p \in Poses : /\ pose' = (IF Listed(list, i) THEN [pose EXCEPT ![i] = p] ELSE pose)
                                    /\ op' = <<"update", i, p>> /\ UNCHANGED <<list, time, content, drawn, gone, scans>>
Combine == \E i, j \in F :
              /\ i # j
              /\ IF Listed(list, i) /\ Listed(list, j)
                 THEN /\ content' = [content EXCEPT ![i] = @ \cup content[j]] /\ time' = [time EXCEPT ![i] = time[j]]
                      /\ list' = Without(list, j)
                 ELSE UNCHANGED <<content, time, list>>
              /\ op' = <<"combine", i, j>> /\ UNCHANGED <<pose, drawn, gone, scans>>
Recalc == \E t \in {7} : /\ drawn' = [k \in 1 .. Len(list) |-> Image(ByTime(list, time)[k])]
              /\ op' = <<"recalc", t>> /\ UNCHANGED <<list, time, content, pose, gone, scans>>
Next == Add \/ Scan \/ Remove \/ Update \/ Combine \/ Recalc
Spec == Init /\ [][Next]_vars
Once == Distinct(list, [i \in F |-> i])
Times1 == Distinct(list, time)
\* nothing a frame held is lost but by removing the frame
Kept == \A s \in 1 .. scans : s \in gone \/ \E i \in F : s \in content[i]
Fresh == op[1] = "recalc" => /\ Len(drawn) = Len(list)
                             /\ \A k \in 1 .. Len(list) : \E d \in 1 .. Len(drawn) : drawn[d] = Image(list[k])
                             /\ \A a, b \in 1 .. Len(drawn) : a < b => time[drawn[a][1]] < time[drawn[b][1]]
=============================================================================
