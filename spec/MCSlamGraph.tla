------------------------------ MODULE MCSlamGraph ------------------------------
EXTENDS SlamGraph
CONSTANTS Truth, MaxCons, Oks
VARIABLES n, poses, cons, loops, solved, op
vars == <<n, poses, cons, loops, solved, op>>
Init == n = 0 /\ poses = << >> /\ cons = << >> /\ loops = 0 /\ solved = TRUE /\ op = <<"reset">>
Off(p) == [p EXCEPT !.x = @ + 1, !.k = (@ + 1) % 4]
AddPose == /\ n < Len(Truth)
           /\ \E off \in (IF n = 0 THEN {0} ELSE {0, 1}) :
                /\ poses' = Append(poses, IF off = 0 THEN Truth[n + 1] ELSE Off(Truth[n + 1]))
                /\ op' = <<"pose", n, off>>
           /\ n' = n + 1 /\ solved' = FALSE /\ UNCHANGED <<cons, loops>>
Cons(f, t, lp) == [f |-> f, t |-> t, z |-> Reduced(Between(Truth[f + 1], Truth[t + 1])), loop |-> lp]
\* a pose is connected as soon as it is constrained
AddCons == /\ Len(cons) < MaxCons /\ n > 1
           /\ \E f, t \in 0 .. n - 1 :
                /\ f # t /\ (f \in Attached(cons) \/ t \in Attached(cons))
                /\ cons' = Append(cons, Cons(f, t, FALSE)) /\ op' = <<"constrain", f, t>>
           /\ solved' = FALSE /\ UNCHANGED <<n, poses, loops>>
AddLast == /\ Len(cons) < MaxCons /\ n > 1 /\ n - 2 \in Attached(cons)
           /\ cons' = Append(cons, Cons(n - 2, n - 1, FALSE)) /\ op' = <<"last">>
           /\ solved' = FALSE /\ UNCHANGED <<n, poses, loops>>
Close == /\ n > 1 /\ loops < 1
         /\ \E k \in Attached(cons), ok \in Oks, lastOne \in {0, 1} :
              /\ (lastOne = 1 => k = n - 1)
              /\ \E c \in SUBSET ((Attached(cons) \cap {ok[i] : i \in DOMAIN ok}) \ {k}) :
                   cons' = cons \o [i \in 1 .. Cardinality(c) |-> LET j == CHOOSE j \in c : Cardinality({x \in c : x < j}) = i - 1 IN Cons(k, j, TRUE)]
              /\ op' = <<"close", IF lastOne = 1 THEN -1 ELSE k, ok>>
         /\ loops' = 1 /\ solved' = FALSE /\ UNCHANGED <<n, poses>>
Optimise == /\ n > 0 /\ ~solved
            /\ poses' = LET s == Solve(cons, [k \in {0} |-> poses[1]]) IN [i \in 1 .. n |-> IF i - 1 \in DOMAIN s THEN s[i - 1] ELSE poses[i]]
            /\ solved' = TRUE /\ op' = <<"optimise">> /\ UNCHANGED <<n, cons, loops>>
Next == AddPose \/ AddCons \/ AddLast \/ Close \/ Optimise
Spec == Init /\ [][Next]_vars
Hangs == Proper(cons)
FirstStays == n > 0 => poses[1] = Truth[1]
AllSatisfied == solved /\ n > 0 => Satisfied(cons, [k \in 0 .. n - 1 |-> poses[k + 1]])
Undisturbed == [][\A i \in 1 .. n : poses'[i] # poses[i] => op'[1] = "optimise" /\ (i - 1) \in Attached(cons)]_vars
===============================================================================
