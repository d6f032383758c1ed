---------------------------- MODULE MCVoxelGrid ----------------------------
EXTENDS VoxelGrid
CONSTANTS Ops, Spots, Vals, MaxV, MaxExt, MaxCells, RayMax, Moves, Ends
VARIABLE op
vars == <<grids, op>>
G == grids[1]
Bound(g) == g.l <= MaxExt /\ g.r <= MaxExt /\ g.u <= MaxExt /\ g.d <= MaxExt
            /\ Cardinality(Dom(g)) <= MaxCells
            /\ \A c \in Dom(g) : g.cells[c] <= MaxV
Upd(h) == Bound(h) /\ grids' = [grids EXCEPT ![1] = h]
Init == grids = <<NewGrid>> /\ op = <<"reset">>
B(b) == IF b THEN 1 ELSE 0

DoAdd == /\ "add" \in Ops
         /\ \E p \in Spots, v \in Vals, m \in BOOLEAN :
            Upd(Added(G, p, v, m)) /\ op' = <<"add", 1, p[1], p[2], v, B(m), (v + p[1]) % 2>>
DoRemove == /\ "remove" \in Ops
            /\ \E p \in Spots :
               Upd(Removed(G, p)) /\ op' = <<"remove", 1, p[1], p[2]>>
DoEnlarge == /\ "enlarge" \in Ops
             /\ \E p, q \in Spots :
                Upd(Enlarged(G, p[1], p[2], q[1], q[2])) /\ op' = <<"enlarge", 1, p[1], p[2], q[1], q[2]>>
DoClear == "clear" \in Ops /\ Upd(Cleared(G)) /\ op' = <<"clear", 1>>
DoTranslate == /\ "translate" \in Ops
               /\ \E dx, dy \in Moves, k \in BOOLEAN :
                  Upd(Translated(G, dx, dy, k)) /\ op' = <<"translate", 1, dx, dy, B(k)>>
DoRay == /\ "ray" \in Ops /\ Cardinality(Dom(G)) <= RayMax
         /\ \E p \in Spots, q \in Ends :
            /\ LET res == RefRay(G, p, q) IN
               /\ Assert(RayOK(G, p, q, res), <<"reference ray is no ray", p, q, G, res>>)
               /\ Upd(Touched(G, {res[i] : i \in 1 .. Len(res)}))
            /\ op' = <<"ray", 1, p[1], p[2], q[1], q[2]>>
\* copies: a second grid object is made from the first one, in every way C++ offers
DoCopy == /\ "copy" \in Ops
          /\ \E how \in {"copyctor", "copyassign", "movector", "moveassign", "clone"} :
             \/ /\ how \in {"copyctor", "copyassign"}
                /\ grids' = <<G, G>> /\ op' = <<how, 1, 2>>
             \/ /\ how \in {"movector", "moveassign"}
                /\ grids' = <<G, G>> /\ op' = <<"copythen", how, 1, 2>>
             \/ /\ how = "clone" /\ grids' = <<G, NewGrid>> /\ op' = <<how, 1, 2>>
DoSelf == "copy" \in Ops /\ UNCHANGED grids /\ op' = <<"selfassign", 1>>
DoOther == /\ "copy" \in Ops /\ Len(grids) = 2
           /\ \E p \in Spots, v \in Vals :
              /\ Bound(Added(grids[2], p, v, TRUE))
              /\ grids' = [grids EXCEPT ![2] = Added(@, p, v, TRUE)]
              /\ op' = <<"add", 2, p[1], p[2], v, 1, 0>>
Next == DoAdd \/ DoRemove \/ DoEnlarge \/ DoClear \/ DoTranslate \/ DoRay \/ DoCopy \/ DoSelf \/ DoOther
Spec == Init /\ [][Next]_vars
GrowOnly == [][\/ op'[1] \in {"clone", "copyctor", "copyassign", "copythen"}
               \/ NeverShrinks]_vars
\* a write is found again at every position of its cell, and nothing else changed
WriteRead == [][op'[1] = "add" =>
                 LET k == op'[2]  c == CellOf(<<op'[3], op'[4]>>) IN
                 /\ c \in Dom(grids'[k]) /\ Dom(grids'[k]) = Dom(grids[k]) \cup {c}
                 /\ \A x \in Dom(grids[k]) \ {c} : grids'[k].cells[x] = grids[k].cells[x]]_vars
\* nothing is lost by a translation that may resize
KeepAll == [][op'[1] = "translate" /\ op'[5] = 0 =>
                Cardinality(Dom(grids'[1])) = Cardinality(Dom(grids[1]))]_vars
Independent == [][op'[1] = "add" => \A i \in 1 .. Len(grids) : i # op'[2] => grids'[i] = grids[i]]_vars
=============================================================================
