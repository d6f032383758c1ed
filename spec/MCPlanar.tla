------------------------------ MODULE MCPlanar ------------------------------
(* Registers moved by a few motions; and the inputs of the stateless helpers enumerated. *)
EXTENDS Planar
CONSTANTS Motions, Others, Bound, Mode, Strings, Tokens, Range
VARIABLE op
vars == <<reg, op>>
Init == reg = [i \in 1 .. NR |-> Id] /\ op = <<"reset">>
Small(p) == Abs(p.x) <= Bound * P5(p.d) /\ Abs(p.y) <= Bound * P5(p.d) /\ p.d <= 1 /\ Abs(p.n) <= 1
Put(i, p) == Small(p) /\ reg' = [reg EXCEPT ![i] = Reduced(p)]
Args(o, i, p) == <<o, i, p.x, p.y, p.n, p.k>>
Concat == Mode = "pose" /\ \E i \in {1}, p \in Motions : Put(i, Mul(reg[i], p)) /\ op' = Args("concat", i, p)
AddTo == Mode = "pose" /\ \E i \in {1}, p \in Motions : Put(i, Plus(reg[i], p)) /\ op' = Args("add", i, p)
SetB == Mode = "pose" /\ \E p \in Others : reg' = [reg EXCEPT ![2] = p] /\ op' = Args("set", 2, p)
Rel == Mode = "pose" /\ \E i, j \in 1 .. 2 : op' = <<"rel", i, j>> /\ UNCHANGED reg
Conv == Mode = "pose" /\ \E i \in 1 .. 2 : op' = <<"conv", i>> /\ UNCHANGED reg
Err == Mode = "pose" /\ \E p \in Motions : op' = <<"err", 1, 2, p.x, p.y, p.n, p.k>> /\ UNCHANGED reg
SplitIt == Mode = "split" /\ op[1] = "reset" /\ \E s \in Strings, t \in Tokens : op' = <<"split", s, t>> /\ UNCHANGED reg
Search == Mode = "search" /\ op[1] = "reset" /\ \E c \in {-1, 1, 2}, m, p, al, au, at \in Range, quad \in BOOLEAN :
            LET h == [c |-> c, m |-> m, p |-> p, quad |-> quad] IN
            /\ Proper(h, al, au, at)
            /\ op' = <<"search", c, m, p, IF quad THEN 1 ELSE 0, al, au, at>> /\ UNCHANGED reg
Next == Concat \/ SetB \/ AddTo \/ Rel \/ Conv \/ Err \/ SplitIt \/ Search
Spec == Init /\ [][Next]_vars
\* group laws and consistency of the derived relations
Group == Mode = "pose" =>
  \A i, j \in 1 .. 2 :
    LET a == reg[i]  b == reg[j] IN
    /\ SamePose(Mul(a, Inv(a)), Id) /\ SamePose(Mul(Inv(a), a), Id)
    /\ SamePose(Mul(b, Frames(a, b)), a)
    /\ SamePose(Plus(a, Shift(a, b)), b)
    /\ SamePose(ErrorOf(a, Mul(a, b), b), Id)
    /\ \A p \in Motions : SamePose(Mul(Mul(a, b), p), Mul(a, Mul(b, p)))
Joins == (Mode = "split" /\ op[1] = "split") => SplitOK(op[2], op[3], Split(op[2], op[3]))
\* the interval update keeps the better end on the lower side, and the new lower end is downhill of the upper one
Bracket == (Mode = "search" /\ op[1] = "search") =>
  LET h == [c |-> op[2], m |-> op[3], p |-> op[4], quad |-> op[5] = 1]  n == Interval(h, op[6], op[7], op[8]) IN
  /\ F6(h, n.l) <= F6(h, op[6])
  /\ Trials(h, op[6], op[7], op[8]) # {}
  /\ (~n.done /\ n.l = op[8]) => G(h, n.l) * (n.u - n.l) < 0 \/ n.u = op[7]
=============================================================================
