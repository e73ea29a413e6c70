------------------------------ MODULE PrintTrace ------------------------------
(***************************************************************************)
(* What the code under test printed, line by line.  Numbers are wide, unit *)
(* 1e-6, with 10000 added to them (they may be negative).  A record has     *)
(*  type   "time", "pierce" or "path", or "same": what a model (other)   *)
(*         and a tool object (text) printed, as numbers                    *)
(*  rays   the arrivals: head, the numbers of the arrival; words, the      *)
(*         names; points (of pierce and path)                              *)
(*  lines  what was printed: <<"head", numbers, words>> or                 *)
(*         <<"point", numbers>>, or <<"bad">> for what cannot be read      *)
(*  half   half a unit of the last printed digit, of each number           *)
(* and filter, added (for each ray and point: is its depth a further one), *)
(* limit (unit 1e-6 degrees), cut (time, unit 1e-6 s).                     *)
(***************************************************************************)
EXTENDS Print, Wide, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
VARIABLES rec, k, a, j, i, st    \* line, ray, point, step; st "head", "points", "end"
vars == <<rec, k, a, j, i, st>>
R == Recs[rec]
Init == \E r \in 1..Len(Recs) : rec = r /\ k = 1 /\ a = 1 /\ j = 1 /\ i = 0 /\ st = "head"
Fail(x) == PrintT(<<"FAIL", rec, x>>)
One == WOf(1)
Like(printed, v, half) == WNear(printed, v, WAdd(half, One))
AllLike(ps, vs, halves) == /\ Len(ps) = Len(vs)
                           /\ \A n \in 1..Len(vs) : Like(ps[n], vs[n], halves[n])
Line == R.lines[k]
Ray == R.rays[a]
HeadLike == /\ Line[1] = "head" /\ Line[3] = Ray.words
            /\ AllLike(Line[2], Ray.head, R.halfhead)
Pts == Ray.points
Zero == <<0, 0, 100>>           \* 10000 and 0
Goto(kk, aa, jj, ii, ss) == k' = kk /\ a' = aa /\ j' = jj /\ i' = ii /\ st' = ss /\ UNCHANGED rec
Stop(x) == Fail(x) /\ Goto(k, a, j, i, "end")
NextRay(kk) == Goto(kk, a + 1, 1, 0, "head")
---------------------------------------------------------------- (* the table, and heads *)
HeadLine == /\ st = "head" /\ R.type # "same" /\ a <= Len(R.rays)
        /\ IF k > Len(R.lines) THEN Stop("missing")
           ELSE IF ~HeadLike THEN Stop(IF Line[1] = "head" THEN "head" ELSE "unreadable")
           ELSE IF R.type = "time" THEN NextRay(k + 1)
           ELSE Goto(k + 1, a, 1, 0, "points")
LastLine == /\ st = "head" /\ R.type # "same" /\ a > Len(R.rays)
        /\ IF k <= Len(R.lines) THEN Stop("more") ELSE Goto(k, a, j, i, "end") /\ PrintT(<<"V", R.type>>)
---------------------------------------------------------------- (* pierce points *)
\* A point: <<distance, depth, time>>; distances are negative the long way round.
Sign(p) == CASE Ray.long = 0 -> {p} [] Ray.long = 1 -> {WSub(WTimes(2, Zero), p)}
             [] OTHER -> {p, WSub(WTimes(2, Zero), p)}      \* half around
PointLike(p) == /\ k <= Len(R.lines) /\ Line[1] = "point" /\ Len(Line[2]) = 3
                /\ \E x \in Sign(p[1]) : Like(Line[2][1], x, R.half[1])
                /\ Like(Line[2][2], p[2], R.half[2]) /\ Like(Line[2][3], p[3], R.half[3])
Before == Pts[IF j = 1 THEN j ELSE j - 1][2]
After == Pts[IF j = Len(Pts) THEN j ELSE j + 1][2]
Here == Pts[j][2]
Kind == Shown(R.filter, j = 1, j = Len(Pts), Ray.added[j] = 1, WLess(Before, Here), WLess(After, Here),
              WLess(Here, Before), WLess(Here, After))
Pierce == /\ st = "points" /\ R.type = "pierce"
          /\ IF j > Len(Pts) THEN NextRay(k)
             ELSE CASE Kind = "no" -> Goto(k, a, j + 1, 0, st)
                    [] Kind = "yes" -> IF PointLike(Pts[j]) THEN Goto(k + 1, a, j + 1, 0, st)
                                       ELSE Stop("point")
                    [] OTHER -> IF PointLike(Pts[j]) THEN Goto(k + 1, a, j + 1, 0, st)
                                ELSE Goto(k, a, j + 1, 0, st)
---------------------------------------------------------------- (* paths *)
\* A point: <<distance, radius, time>>, of which the first two are printed.
\* Steps from point j on; some, if the distance is a whole number of limits up to rounding.
D(n) == WSub(Pts[n + 1][1], Pts[n][1])
Small == WOf(3)
\* n, where the n-th multiple of the limit is the first not less than the distance
Enough(n, d) == WLeq(d, WAdd(WTimes(n, R.limit), Small))
TooMany(n, d) == n > 1 /\ WLess(WAdd(d, Small), WTimes(n - 1, R.limit))
\* As the limit can be small the number is given, and checked here.
StepsOk(n) == /\ n >= 1 /\ (Ray.straight = 0 => Enough(n, D(j))) /\ ~TooMany(n, D(j))
Counts == IF j = Len(Pts) \/ Ray.straight = 1 THEN {1} ELSE {x \in {Ray.steps[j], Ray.steps[j] + 1} : StepsOk(x)}
Mix(n, c) == WAdd(WTimes(n - i, Pts[j][c]), IF i = 0 THEN <<>> ELSE WTimes(i, Pts[j + 1][c]))
Late(n) == WLess(WTimes(n, R.cut), Mix(n, 3))
PathLike(n) == /\ k <= Len(R.lines) /\ Line[1] = "point" /\ Len(Line[2]) = 2
               /\ LET p == Line[2][1]  q == IF Ray.long = 1 THEN WSub(WTimes(2, Zero), p) ELSE p
                      r == WSub(WTimes(2, Zero), p)
                  IN WNear(WTimes(n, q), Mix(n, 1), WTimes(n, WAdd(R.half[1], One)))
                     \/ (Ray.long = 2 /\ WNear(WTimes(n, r), Mix(n, 1), WTimes(n, WAdd(R.half[1], One))))
               /\ WNear(WTimes(n, Line[2][2]), Mix(n, 2), WTimes(n, WAdd(R.half[2], One)))
\* Cut off between points j - 1 and j, which comes too late
CutLike(b) == LET t1 == Pts[b - 1][3]  t2 == Pts[b][3]  T == R.cut
                  w1 == WSub(t2, T)  w2 == WSub(T, t1)  w == WSub(t2, t1)
                  near(v, c) == WNear(WMul(w, v), WAdd(WMul(w1, Pts[b - 1][c]), WMul(w2, Pts[b][c])),
                                      WMul(w, WAdd(R.half[c], One)))
                  p == Line[2][1]
              IN /\ k <= Len(R.lines) /\ Line[1] = "point" /\ Len(Line[2]) = 2
                 /\ near(p, 1) \/ (Ray.long > 0 /\ near(WSub(WTimes(2, Zero), p), 1))
                 /\ near(Line[2][2], 2)
Path == /\ st = "points" /\ R.type = "path"
        /\ IF j > Len(Pts) THEN NextRay(k)
           ELSE IF i = 0 /\ WLess(R.cut, Pts[j][3])
           THEN IF j > 1 /\ WLess(Pts[j - 1][3], R.cut)
                THEN IF CutLike(j) THEN NextRay(k + 1) ELSE Stop("cut")
                ELSE NextRay(k)
           ELSE IF i > 0 /\ Late(CHOOSE n \in Counts : TRUE) THEN Goto(k, a, j + 1, 0, st)
           ELSE IF \E n \in Counts : i < n /\ PathLike(n)
           THEN LET n == CHOOSE m \in Counts : i < m /\ PathLike(m)
                IN IF i + 1 < n THEN Goto(k + 1, a, j, i + 1, st)
                   \* printed exactly at the end of the time: nothing more
                   ELSE IF i = 0 /\ WEq(Pts[j][3], R.cut) THEN NextRay(k + 1)
                   ELSE Goto(k + 1, a, j + 1, 0, st)
           ELSE Stop(IF Counts = {} THEN "steps" ELSE "path-point")
\* Printed by a model: as by a tool
Same == /\ st = "head" /\ R.type = "same" /\ PrintT(<<"V", "same">>)
        /\ IF R.text = R.other THEN Goto(k, a, j, i, "end") ELSE Stop("interface")
Next == Same \/ HeadLine \/ LastLine \/ Pierce \/ Path
TraceSpec == Init /\ [][Next]_vars
==============================================================================
