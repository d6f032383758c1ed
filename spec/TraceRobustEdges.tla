------------------------- MODULE TraceRobustEdges -------------------------
EXTENDS RobustEdges, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT      \* "switch", "mixture" or "io"
VARIABLE l
tvars == <<poses, pts, sws, el, l>>
Sw == Aspect = "switch"
Mx == Aspect = "mixture"
Io == Aspect = "io"
\* recorded pose and matrix of an element
SameMeas(o, m) == IsPose(o, m, 1)
SamePt(o, m) == o = <<1000 * m[1], 1000 * m[2]>>
CompOK(o, c, t) == o.i = c.i /\ o.j = c.j /\ o.inf = c.inf /\ IF t = "mix" THEN SameMeas(o.m, c.m) ELSE SamePt(o.m, c.m)
\* `e` is the element after the call
ElOK(o, e) ==
  /\ o.t = e.t
  /\ CASE e.t = "sw" -> o.i = e.i /\ o.j = e.j /\ o.s = e.s /\ o.inf = e.inf /\ SameMeas(o.m, e.m)
       [] e.t = "pr" -> o.s = e.s /\ o.m = e.m /\ o.inf = e.inf
       [] OTHER ->
            /\ o.n = Len(e.comps) /\ Len(o.comps) = Len(e.comps)
            /\ \A q \in 1 .. Len(e.comps) : CompOK(o.comps[q], e.comps[q], e.t)
            \* it stands for its best component
            /\ o.best = e.best
            /\ o.best \in 1 .. Len(e.comps) => CompOK(o, e.comps[o.best], e.t)
Obs(e) == /\ Len(e.el) = Len(el') /\ \A q \in 1 .. Len(el') : ElOK(e.el[q], el'[q])
          /\ \A i \in 1 .. Len(sws') : e.sws[i] = sws'[i].v
Geo == UNCHANGED <<poses, pts>>
Quiet == UNCHANGED <<poses, pts, sws, el>>
SwStep(e, s) == sws' = [sws EXCEPT ![e.i] = s] /\ UNCHANGED <<poses, pts, el>> /\ e.stack = Len(s.stack) /\ e.grad = 1000
\* the component a mixture reports after the call
MixSet(e, q, m) == /\ BestOK([m EXCEPT !.best = e.el[q].best], e.el[q].best)
                   /\ el' = (IF q > Len(el) THEN Append(el, [m EXCEPT !.best = e.el[q].best]) ELSE [el EXCEPT ![q] = [m EXCEPT !.best = e.el[q].best]])
                   /\ UNCHANGED <<poses, pts, sws>>
E(e) == el[e.e]
\* angles in a Jacobian are in thousandths
JacSw(o, r) ==
  LET f == P5(r.d) IN
  /\ Near(o[1][1] * f, 1000 * r.x, 2 * f) /\ Near(o[2][1] * f, 1000 * r.y, 2 * f)
  /\ Near(o[3][1] * 1000, Angle(r.n, r.k), 1100) \/ (HalfTurn(r) /\ Near(o[3][1] * 1000, -Angle(r.n, r.k), 1100))
\* error and Jacobians of element x (after the call)
Reports(e, x, jac) ==
  CASE x.t = "sw" ->
         LET r == Resid(x.i, x.j, x.m)  s == sws[x.s].v IN
         IF ~jac THEN ErrOK(e.err, r, s, U)
         ELSE /\ ErrOK(e.err, r, s, U)
              /\ JacOK(e.jac[1], e.jac[2], x.i, x.j, x.m, s, U)
              \* derivative for the switch is the plain residual
              /\ JacSw(e.jac[3], r)
    [] x.t = "pr" ->
         IF ~jac THEN Near(e.err[1] * U, 1000 * (x.m - sws[x.s].v), U)
         ELSE e.jac = << << <<-1000>> >> >>
    [] x.t = "mix" ->
         LET c == x.comps[x.best]  r == Resid(c.i, c.j, c.m) IN
         /\ ErrOK(e.err, r, 1, 1)
         /\ jac => JacOK(e.jac[1], e.jac[2], c.i, c.j, c.m, 1, 1)
    [] OTHER ->
         LET c == x.comps[x.best]  r == PtResid(c.i, pts[c.j], c.m) IN
         /\ PtErrOK(e.err, r)
         /\ jac => PtJacOK(e.jac[1], e.jac[2], c.i, pts[c.j])
Step(e) ==
  CASE e.op = "reset" -> /\ poses' = [i \in 1 .. e.np |-> Id] /\ pts' = [i \in 1 .. e.nl |-> <<0, 0>>]
                         /\ sws' = [i \in 1 .. e.ns |-> NewSwitch] /\ el' = << >>
    [] e.op = "pose" -> poses' = [poses EXCEPT ![e.i] = e.p] /\ UNCHANGED <<pts, sws, el>>
    [] e.op = "pt" -> pts' = [pts EXCEPT ![e.i] = e.p] /\ UNCHANGED <<poses, sws, el>>
    [] e.op = "set" -> SwStep(e, SwSet(sws[e.i], e.v))
    [] e.op = "upd" -> SwStep(e, SwUpdate(sws[e.i], e.v))
    [] e.op = "push" -> SwStep(e, SwPush(sws[e.i]))
    [] e.op = "pop" -> SwStep(e, SwPop(sws[e.i]))
    [] e.op = "discard" -> SwStep(e, SwDiscard(sws[e.i]))
    [] e.op = "origin" -> SwStep(e, SwOrigin(sws[e.i]))
    [] e.op = "rwsw" -> SwStep(e, sws[e.i]) /\ (Io => e.ok /\ e.v = sws[e.i].v /\ e.tag = "VERTEX_SWITCH")
    [] e.op = "mksw" -> Geo /\ UNCHANGED sws /\ el' = Append(el, Switchable(e.i, e.j, e.s, e.m, e.inf))
    [] e.op = "mkpr" -> Geo /\ UNCHANGED sws /\ el' = Append(el, Prior(e.s, e.m, e.inf))
    [] e.op \in {"mkmix", "mkmxy"} -> MixSet(e, Len(el) + 1, Mixture(e.t, e.comps))
    [] e.op \in {"initmix", "initmxy"} -> MixSet(e, e.e, Mixture(e.t, e.comps))
    [] e.op = "err" -> (IF E(e).t \in {"mix", "mxy"} THEN MixSet(e, e.e, E(e)) ELSE Quiet)
                       /\ e.chi /\ (Sw \/ Mx => Reports(e, el'[e.e], FALSE))
    [] e.op = "lin" -> (IF E(e).t \in {"mix", "mxy"} THEN MixSet(e, e.e, E(e)) ELSE Quiet)
                       /\ (Sw \/ Mx => Reports(e, el'[e.e], TRUE))
    [] e.op = "ser" -> (IF E(e).t \in {"mix", "mxy"} THEN MixSet(e, e.e, E(e)) ELSE Quiet) /\ (Io => e.ok)
    [] e.op = "opt" -> Quiet /\ (Sw => e.in /\ e.nogrow)
    [] OTHER -> FALSE
TInit == poses = << >> /\ pts = << >> /\ sws = << >> /\ el = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ Obs(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
