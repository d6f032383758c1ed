----------------------------- MODULE NDTMapper -----------------------------
(***************************************************************************)
(* The mapper keeps frames (by reference, each once) with their time and   *)
(* draws them into one map.  Adding a frame draws it on top; everything    *)
(* else only changes the list, until the map is drawn again: all frames,   *)
(* oldest first, onto a blank map.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Listed(list, i) == \E k \in 1 .. Len(list) : list[k] = i
Without(list, i) == SelectSeq(list, LAMBDA x : x # i)
\* list in the order of the times
RECURSIVE ByTime(_, _)
ByTime(list, t) ==
  IF list = << >> THEN << >>
  ELSE LET k == CHOOSE a \in 1 .. Len(list) : \A b \in 1 .. Len(list) : t[list[a]] <= t[list[b]]
       IN <<list[k]>> \o ByTime(Without(list, list[k]), t)
Distinct(list, t) == \A a, b \in 1 .. Len(list) : a # b => t[list[a]] # t[list[b]]
=============================================================================
