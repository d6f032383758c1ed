---------------------------- MODULE TracePlanar ----------------------------
EXTENDS Planar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<reg, l>>
Keep == UNCHANGED reg
Obs(e) == Len(e.reg) = NR /\ \A i \in 1 .. NR : IsPose(e.reg[i], reg'[i], 1)
Put(i, p) == reg' = [reg EXCEPT ![i] = p]
HalfSame(o, a) == IsPose(o, a, 1)
Step(e) ==
  CASE e.op = "reset" -> reg' = [i \in 1 .. NR |-> Id]
    [] e.op = "set" -> Put(e.i, e.p) /\ e.inpi /\ SameAngle(e.norm, Angle(e.p.n, e.p.k), 10)
    [] e.op = "norm" -> Keep /\ e.inpi
    [] e.op = "concat" -> Put(e.i, Mul(reg[e.i], e.p)) /\ e.inpi /\ IsPose(e.alt, reg'[e.i], 1)
    [] e.op = "add" -> Put(e.i, Plus(reg[e.i], e.p)) /\ e.inpi /\ IsPose(e.alt, reg'[e.i], 1) /\ IsPose(e.alt2, reg'[e.i], 1)
    [] e.op = "rel" ->
         LET a == reg[e.a]  b == reg[e.b]  s == Shift(a, b)  f == Frames(a, b) IN
         /\ Keep /\ IsPose(e.shift, s, 1) /\ IsPose(e.back, b, 1) /\ IsPose(e.frames, f, 1) /\ IsMat3(e.fmat, f)
         /\ IsNorm(e.disp, s) /\ IsNorm(e.fdisp, f) /\ Near(e.disp, e.fdisp, 1)
         /\ e.inpi /\ SameAngle(e.diff, Angle(s.n, s.k), 10) /\ SameAngle(e.ang, Angle(f.n, f.k), 10)
    [] e.op = "conv" ->
         LET a == reg[e.a] IN
         /\ Keep /\ IsMat3(e.t, a) /\ IsMat4(e.m4, a) /\ IsMat3(e.t4, a) /\ IsMat4(e.v4, a) /\ IsMat3(e.v3, a)
         /\ IsPose(e.b4, a, 1) /\ IsPose(e.b3, a, 1) /\ IsMat4(e.r4, a) /\ IsMat4(e.rf, a) /\ IsPose(e.rb, a, 1) /\ IsPose(e.pv, a, 1)
    [] e.op = "err" ->
         LET a == reg[e.a]  b == reg[e.b]  r == ErrorOf(a, b, e.p) IN
         /\ Keep /\ IsPose(e.err, r, 1) /\ IsPose(e.err2, r, 1) /\ e.inpi /\ e.same /\ JacOK(e.ja, e.jb, a, b, e.p)
    [] e.op = "inv" ->
         /\ Keep /\ e.okf /\ e.ok = Invertible(e.d) /\ e.isinv
         /\ e.ok => /\ LET m == Spectral(Floored(e.d), e.ax, e.n)  f == 625 \div P5(2 * Abs(e.n)) IN
                         \A i, j \in 1 .. 3 : Near(e.adj[i][j], m[i][j] * f, 3)
                    /\ (\A i \in 1 .. 3 : 100 * e.d[i] > Max3(e.d)) => e.kept
    [] e.op = "chain" ->
         LET R == Chain(e.C, e.O, e.p)  f == P5(2 * Abs(e.p.n)) IN
         /\ Keep /\ e.psd /\ e.unit /\ \A i, j \in 1 .. 3 : Near(e.R[i][j] * f, 10 * R[i][j], f)
    [] e.op = "split" -> Keep /\ SplitOK(e.s, e.t, e.parts) /\ e.parts = Split(e.s, e.t)
    [] e.op = "search" ->
         LET h == e.h  n == Interval(h, e.al, e.au, e.at) IN
         /\ Keep /\ e.l = n.l /\ e.u = n.u /\ e.done = n.done /\ e.vals
         /\ e.psi6 = 4 * (F6(h, e.at) - F6(h, 0)) - 6 * G(h, 0) * e.at
         /\ e.dpsi = 4 * G(h, e.at) - G(h, 0)
         /\ Proper(h, e.al, e.au, e.at) => \E r \in Trials(h, e.al, e.au, e.at) : CloseRat(e.trial, r)
    [] e.op = "fit" -> Keep /\ e.ok /\ e.adds
    [] OTHER -> FALSE
TInit == reg = [i \in 1 .. NR |-> Id] /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ Obs(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
