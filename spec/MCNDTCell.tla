----------------------------- MODULE MCNDTCell -----------------------------
(* Points are <<i,0,0>> with i counting batches, so sums identify what went in. Scatters are left out
   (M0); occupancy moves in steps. *)
EXTENDS NDTCell
CONSTANTS Batches, Rays, MaxN, MaxPend
VARIABLES op, fused   \* fused[i]: the batches (count, sum) fused into the distribution of cell i
vars == <<cells, op, fused>>
N == 2
Init == cells = [i \in 1 .. N |-> NewCell] /\ op = <<"reset">> /\ fused = [i \in 1 .. N |-> <<0, 0>>]
Set(i, c) == cells' = [cells EXCEPT ![i] = c] /\ c.n <= MaxN /\ c.pend.n <= MaxPend
Pts(k, v) == [j \in 1 .. k |-> <<v, 0, 0>>]
DoPts == \E i \in 1 .. N, k \in Batches :
           Set(i, AddedPts(cells[i], Pts(k, i))) /\ op' = <<"pts", i, k>> /\ UNCHANGED fused
DoCompute == \E i \in 1 .. N :
  LET c == cells[i]  o == ComputedOcc(c)  d == Computed(c, o, o > 0, M0) IN
  /\ Set(i, d) /\ op' = <<"compute", i>>
  /\ fused' = IF d.g /\ d.pend.n = 0 /\ c.pend.n > 0
              THEN [fused EXCEPT ![i] = IF c.g THEN <<@[1] + c.pend.n, @[2] + c.pend.s[1]>> ELSE <<c.pend.n, c.pend.s[1]>>]
              ELSE fused
DoMerge == \E i, j \in 1 .. N :
  LET c == cells[i]  o == cells[j]  d == Merged(c, o, MergedOcc(c, o), M0) IN
  /\ Set(i, d) /\ op' = <<"merge", i, j>>
  /\ fused' = IF ~MergeTakes(o) THEN fused
              ELSE [fused EXCEPT ![i] = IF c.g THEN <<@[1] + fused[j][1], @[2] + fused[j][2]>> ELSE fused[j]]
DoRay == \E i \in {1}, w \in Rays, frac \in {0, 1} :
  LET c == cells[i]
      o == IF ~c.g THEN Clamp(c.occ - Miss * w) ELSE Clamp(c.occ - frac * Hit * w) IN
  /\ Set(i, Rayed(c, o, o > 0, o > 0)) /\ op' = <<"ray", i, w, frac>> /\ UNCHANGED fused
Next == DoPts \/ DoCompute \/ DoMerge \/ DoRay
Spec == Init /\ [][Next]_vars
\* the distribution describes exactly the points that were fused into it
Conserved == \A i \in 1 .. N : cells[i].g => cells[i].n = fused[i][1] /\ cells[i].s[1] = fused[i][2]
\* only a ray makes a distribution disappear, or a compute that finds the cell free
KeepsGaussian == [][\A i \in 1 .. N : cells[i].g /\ ~cells'[i].g => op'[1] = "ray"]_vars
\* points never make a cell less occupied, rays never more
Monotone == [][/\ op'[1] = "compute" => \A i \in 1 .. N : cells'[i].occ >= cells[i].occ
               /\ op'[1] = "ray" => \A i \in 1 .. N : cells'[i].occ <= cells[i].occ]_vars
=============================================================================
