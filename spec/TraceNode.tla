------------------------------- MODULE TraceNode ------------------------------
EXTENDS Node, Json, IOUtils, FiniteSets, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, cfg, mount, odoms, l
tvars == <<s, cfg, mount, odoms, l>>
G(v) == Pose(v[1], v[2], v[3], v[4])
Yes(x) == x = TRUE
NoMount == [m |-> Id, upside |-> FALSE, is |-> FALSE]
NoCfg == [mode |-> "", ns |-> "", base |-> "", odom |-> "", fixed |-> "", graph |-> TRUE, right |-> FALSE]
\* ---- configuration
Given(ps, name, default) == IF \E i \in DOMAIN ps : ps[i][1] = name THEN ps[CHOOSE i \in DOMAIN ps : ps[i][1] = name][2] ELSE default
Prefix(e) == Given(e.params, "~tf_prefix", Given(e.params, e.ns \o "/tf_prefix", Given(e.params, "/tf_prefix", "")))
Framed(e, name, default) == (IF Prefix(e) = "" THEN "" ELSE Prefix(e) \o "/") \o Given(e.params, name, default)
Config(e) == LET base == Framed(e, "~robot_base_frame_id", "base_link")
                 odom == Framed(e, "~odom_farme_id", "odom")
             IN [mode |-> Given(e.params, "~subscribe_mode", "NON"), ns |-> e.ns, base |-> base, odom |-> odom,
                 fixed |-> Framed(e, "~map_farme_id", "map"), graph |-> Given(e.params, "~serialize_graph", 1) = 1,
                 right |-> e.base = base /\ e.odomf = odom]
Range(f) == {f[i] : i \in DOMAIN f}
Eighths(e, name, default) == Given(e.params, name, default)
Start(e) ==
  /\ cfg' = Config(e) /\ UNCHANGED <<s, mount, odoms>>
  /\ e.alive
  /\ {e.ns \o t : t \in {"/map", "/graph", "/win_ndt", "/map_pcl", "/win_pcl"}} = Range(e.ads)
  /\ Range(e.subs) = {"/scan"} \cup (CASE cfg'.mode = "ODOM" -> {e.ns \o "/odom"} [] cfg'.mode = "POSE" -> {e.ns \o "/pose"} [] OTHER -> {})
  /\ e.radius = Given(e.params, "~scanmatch_window_radius", 320) /\ e.gen = Given(e.params, "~node_gen_distance", 16)
  /\ e.max = Given(e.params, "~loop_max_distance", 240) /\ e.min = Given(e.params, "~loop_min_distance", 112)
  /\ e.score = (IF \E i \in DOMAIN e.params : e.params[i][1] = "~loop_score_threshold" THEN 125 * Given(e.params, "~loop_score_threshold", 0) ELSE 600)
\* ---- messages
Stamp(e) == CASE cfg.mode = "ODOM" -> e.to [] cfg.mode = "POSE" -> e.tp [] OTHER -> e.tl
Seen(e) == {i \in DOMAIN e.rays : e.rays[i][2] \in 1 .. 100}
RECURSIVE Count(_, _)
Count(e, is) == IF is = {} THEN 0 ELSE LET i == CHOOSE x \in is : TRUE IN e.rays[i][3] + Count(e, is \ {i})
Points(e) == Count(e, Seen(e))
Up(p) == IF mount.upside THEN [p EXCEPT !.y = -@] ELSE p
\* where a beam ends, seen from the robot
End(e, i) == LET a == Mul(mount.m, Up(Reduced(Mul(Pose(0, 0, 0, e.rays[i][1]), Pose(e.rays[i][2], 0, 0, 0))))) IN <<10 * a.x, 10 * a.y>>
CloudOk(e, cloud) ==
  LET ends == {End(e, i) : i \in Seen(e)}
  IN /\ Len(cloud) = Cardinality(ends)
     /\ \A p \in ends : \E c \in Range(cloud) : Near(c[1], p[1], 1) /\ Near(c[2], p[2], 1) /\ c[3] = Count(e, {i \in Seen(e) : End(e, i) = p})
CovOk(e, cov) ==
  LET tag == IF cfg.mode = "ODOM" THEN e.tag ELSE e.tag + 100
      at == <<0, 1, 5, 6, 7, 11, 30, 31, 35>>
  IN IF cfg.mode \in {"ODOM", "POSE"} THEN \A i \in 1 .. 9 : cov[i] = 10000 * (tag + at[i])
     ELSE \A i \in 1 .. 9 : cov[i] = IF i \in {1, 5, 9} THEN 1 ELSE 0
Found(e) == \E i \in DOMAIN odoms : odoms[i].t = Stamp(e)
Odo(e) == odoms[CHOOSE i \in DOMAIN odoms : odoms[i].t = Stamp(e)].m
Frames(e) == cfg.right /\ mount.is /\ e.known /\ Found(e)
Told(e) == LET u == e.updates[1] IN
  /\ IsPose(u.motion, Motion(s, Odo(e)), 1) /\ u.rigid /\ u.t = Stamp(e)
  /\ CloudOk(e, u.cloud) /\ CovOk(e, u.cov)
Products == [t \in {cfg.ns \o "/map", cfg.ns \o "/win_ndt", cfg.ns \o "/map_pcl", cfg.ns \o "/win_pcl"}
                   \cup (IF cfg.graph THEN {cfg.ns \o "/graph"} ELSE {}) |->
             CASE t = cfg.ns \o "/map" -> 1 [] t = cfg.ns \o "/win_ndt" -> 2 [] t = cfg.ns \o "/graph" -> 3
               [] t = cfg.ns \o "/map_pcl" -> 4 [] OTHER -> 5]
Published(e, n) ==
  /\ Len(e.pubs) = Cardinality(DOMAIN Products) /\ {e.pubs[i].topic : i \in DOMAIN e.pubs} = DOMAIN Products
  /\ \A i \in DOMAIN e.pubs : LET p == e.pubs[i] IN p.kind = Products[p.topic] /\ p.frame = cfg.fixed /\ p.serial = n
Msg(e) ==
  LET use == Usable(Frames(e), Points(e))
      t == IF use THEN NodeUse(s, Odo(e), G(e.ans)) ELSE s
  IN /\ s' = t /\ UNCHANGED <<cfg, mount, odoms>>
     /\ e.alive /\ Len(e.updates) = (IF use THEN 1 ELSE 0) /\ Len(e.tfs) = 1
     /\ Yes(use => Told(e))
     /\ LET f == e.tfs[1] IN f.from = cfg.fixed /\ f.to = cfg.odom /\ f.t = Stamp(e) /\ f.flat /\ IsPose(f.v, t.tf, 2)
     /\ Yes(IF use /\ s.on THEN Published(e, t.n) ELSE e.pubs = << >>)
Take(e) ==
  CASE e.op = "reset" -> s' = FreshNode /\ cfg' = NoCfg /\ mount' = NoMount /\ odoms' = << >>
    [] e.op = "start" -> Start(e)
    [] e.op = "mount" -> mount' = [m |-> G(e.m), upside |-> e.upside, is |-> TRUE] /\ UNCHANGED <<s, cfg, odoms>>
    [] e.op = "odom" -> odoms' = Append(odoms, [t |-> e.t, m |-> G(e.m)]) /\ UNCHANGED <<s, cfg, mount>>
    [] e.op = "msg" -> Msg(e)
    [] OTHER -> FALSE
TInit == s = FreshNode /\ cfg = NoCfg /\ mount = NoMount /\ odoms = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Take(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
