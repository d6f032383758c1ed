---------------------------- MODULE TraceCorrelation ----------------------------
EXTENDS Correlation, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES target, l
tvars == <<target, l>>
Yes(x) == x = TRUE
Within(x, T, c) == x >= Lo(T, c) /\ x <= Hi(T, c)
Empty(c) == DOMAIN c = {}
Scored(e) ==
  LET T == TLCEval(Cells(target))
      c == TLCEval(Moved(e.cloud, e.v))
      d == TLCEval(Moved(e.cloud, <<e.v[1], 0>>))
  IN IF Empty(target) \/ Empty(c) THEN e.direct = 0 /\ e.index = 0 /\ e.along = 0
     ELSE Within(e.direct, T, c) /\ Within(e.index, T, c) /\ Within(e.along, T, d)
\* what the point at (i, j) from the only target point nearby counts; v goes from -e.n to e.n
Blurred(e) ==
  LET n == e.n
      at(m, i, j) == m[i + n + 1][j + n + 1]
      S == -n .. n
  IN \A m \in {e.direct, e.index} :
       /\ at(m, 0, 0) = 100
       /\ \A i, j \in S : /\ at(m, i, j) \in 0 .. 100 /\ (<<i, j>> # <<0, 0>> => at(m, i, j) < 100)
                          /\ at(m, i, j) = at(m, -i, j) /\ at(m, i, j) = at(m, j, i)
                          /\ (i > 0 => at(m, i, j) <= at(m, i - 1, j))
       /\ m = e.direct
\* two of them: the nearer decides
Twice(e) == \A i \in DOMAIN e.both : e.both[i] = Max(e.one[i], e.two[i])
\* the kernel itself; sigma and resolution in eighths
Sigma(e) == Max(Min(2 * e.sigma, 20 * e.res), e.res)          \* doubled
Kernel(e) ==
  LET h == e.half
      at(i, j) == e.k[(i + h) * e.size + j + h + 1]
      S == -h .. h
  IN /\ e.size = 2 * h + 1 /\ Len(e.k) = e.size * e.size /\ e.k = e.at
     /\ 2 * h * e.res <= 2 * Sigma(e) + e.res /\ 2 * h * e.res >= 2 * Sigma(e) - e.res
     /\ at(0, 0) = e.occ
     /\ \A i, j \in S : /\ at(i, j) = at(-i, j) /\ at(i, j) = at(j, i)
                        /\ (i > 0 => at(i, j) <= at(i - 1, j))
                        \* a product of its rows and columns, up to rounding
                        /\ Abs(at(i, j) * e.occ - at(i, 0) * at(0, j)) <= 2 * e.occ
     \* at a distance of one and of two deviations: 61 % and 13.5 %
     /\ (Sigma(e) % (2 * e.res) = 0 => LET m == Sigma(e) \div (2 * e.res) IN
           /\ m <= h => Near(1000 * at(m, 0), 607 * e.occ, 1000)
           /\ 2 * m <= h => Near(1000 * at(2 * m, 0), 135 * e.occ, 1000))
Cell(x) == (x + 500) \div 1000
OnCell(x) == Near(x, 1000 * Cell(x), 20)
Found(e) ==
  LET T == TLCEval(Cells(target))
      c == TLCEval(Guessed(e.guess, e.cloud))
      v == <<Cell(e.delta[1]), Cell(e.delta[2])>>
  IN /\ e.ok /\ OnCell(e.delta[1]) /\ OnCell(e.delta[2]) /\ Near(e.delta[3], 0, 300)
     /\ MayFind(T, c, e.r, v)
     /\ Len(e.out) = Len(c)
     /\ \A i \in DOMAIN c : Near(e.out[i][1], 1000 * (c[i][1] + v[1]), 100) /\ Near(e.out[i][2], 1000 * (c[i][2] + v[2]), 100)
\* the source was made from the target by a motion among those tried: all of it comes to lie on the target
Turned(e) ==
  LET T == Cells(target)
  IN /\ e.ok /\ Len(e.out) = Len(target)
     /\ \A i \in DOMAIN e.out : \E q \in T : Near(e.out[i][1], 1000 * q[1], 520) /\ Near(e.out[i][2], 1000 * q[2], 520)
     /\ Near(e.delta[1], 0, 1000 * e.r + 20) /\ Near(e.delta[2], 0, 1000 * e.r + 20)
     /\ \A i \in DOMAIN e.out : Near(e.out[i][1], e.by[i][1], 20) /\ Near(e.out[i][2], e.by[i][2], 20)
Take(e) ==
  CASE e.op \in {"reset", "nop"} -> target' = << >>
    [] e.op = "table" -> target' = e.target
    [] e.op = "score" -> Yes(Scored(e)) /\ UNCHANGED target
    [] e.op = "blur" -> Yes(Blurred(e)) /\ UNCHANGED target
    [] e.op = "twice" -> Yes(Twice(e)) /\ UNCHANGED target
    [] e.op = "kernel" -> Yes(Kernel(e)) /\ UNCHANGED target
    [] e.op = "search" -> Yes(Found(e)) /\ UNCHANGED target
    [] e.op = "turned" -> Yes(Turned(e)) /\ UNCHANGED target
    [] OTHER -> FALSE
TInit == target = << >> /\ l = 1
TNext == l <= Len(Trace) /\ Take(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=================================================================================
