------------------------------ MODULE PathTrace -------------------------------
(***************************************************************************)
(* Follows the walk of Ray.tla with the path of one arrival: a point at    *)
(* every boundary of the slowness layers that the ray meets.               *)
(*  e, legs, p2, j, twice, x, t, p, src   as in PierceTrace                *)
(*  pts   its points <<depth, time, distance, ray parameter, tau, m1, m2>> *)
(* tau = time - p * distance so far (1e-4 s).  m1 and m2 belong to the way *)
(* from the point before, with u the slowness along it (1e-1 s^2 both, -1  *)
(* where it is too short to say):                                          *)
(*   m1 = p * time / distance, a mean of u^2;                              *)
(*   m2 = (p * ln(r1/r2) / distance)^2, a mean of u^2 - p^2.               *)
(* Points that repeat the one before have been left out.                   *)
(* So both must lie between the extremes within the layer (Snell's law).   *)
(* Layers: <<top, bottom, rank of u at top, at bottom, u^2 at top, bottom>>*)
(***************************************************************************)
EXTENDS Ray, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
Earths == SeqOf(LAMBDA i : WithLimits(Data.earths[i]), Len(Data.earths))
VARIABLES rec, i, s, m, runs, ph
vars == <<rec, i, s, m, runs, ph>>
R == Recs[rec]
E == Earths[R.e]
Pts == R.pts
Init == \E r \in 1..Len(Recs) :
    /\ rec = r /\ i = 1 /\ m = 2 /\ runs = 0
    /\ ph = IF Recs[r].legs[1][1] = "kmps" THEN "kmps" ELSE "walk"
    /\ s = IF Recs[r].legs[1][1] = "kmps" THEN [st |-> "kmps"]
           ELSE Start(Earths[Recs[r].e], Recs[r].legs)
Fail(x) == PrintT(<<"FAIL", rec, x>>)
Walk == /\ ph = "walk" /\ s.st = "go" /\ i < Len(R.legs)
        /\ s' = Step(E, s, R.legs, i) /\ i' = i + 1
        /\ UNCHANGED <<rec, m, runs, ph>>

\* ---- what holds for every arrival --------------------------------------------
Near(a, b, tol) == Abs(a - b) <= tol
Z == Pts[Len(Pts)]
Sound ==
    (IF Len(Pts) >= 1 /\ Pts[1][1] = R.src /\ Pts[1][2] = 0 /\ Pts[1][3] = 0
     THEN {} ELSE {"first-point"})
    \cup (IF Len(Pts) >= 1 /\ Z[1] = 0 THEN {} ELSE {"not-at-surface"})
    \cup (IF \A k \in 1..Len(Pts) - 1 : Pts[k][2] <= Pts[k + 1][2] /\ Pts[k][3] <= Pts[k + 1][3]
          THEN {} ELSE {"backwards"})
    \cup (IF \A k \in 1..Len(Pts) : Near(Pts[k][4], R.p, 2) THEN {} ELSE {"ray-parameter"})
    \cup (IF \A k \in 1..Len(Pts) : Pts[k][1] \in 0..E.bottom THEN {} ELSE {"outside"})

\* ---- the itinerary -------------------------------------------------------------
A == R.j
B == Min2(A + 1, Len(E.rp))
AtSample == 2 * E.rp[A] = R.p2
RightJ == /\ 2 * E.rp[A] >= R.p2 \/ A = 1
          /\ A < Len(E.rp) => 2 * E.rp[A + 1] < R.p2
IsSingle == LastAtLeast(E, s.max) = LastAtLeast(E, s.min)
Between(x) == E.rp[A] > x /\ x > E.rp[B] /\ ~ AtSample
Blurred == \/ R.p2 > 2 * E.rp[1]
           \/ \E k \in 1..Len(s.seq) :
                 Between(In(E, s.seq[k][3], s.seq[k][1])) \/ Between(Turn(E, s.seq[k][3], s.seq[k][1]))
           \/ R.twice = 1
           \* No ray of this phase: the next larger sample stands for its first.
           \/ R.p2 > 2 * s.max
           \/ IsSingle /\ ~ AtSample
Judgeable == s.st = "go" /\ s.max >= s.min /\ ~ (HasJ(R.legs) /\ ~ E.jok) /\ ~ Blurred
Look == /\ ph = "walk" /\ (s.st # "go" \/ i = Len(R.legs))
        /\ \A f \in Sound : Fail(f)
        /\ LET ok == Judgeable IN
           /\ ph' = IF ok THEN "trace" ELSE "done"
           /\ IF ok THEN TRUE ELSE PrintT(<<"V", IF s.st = "odd" THEN "odd" ELSE "blurred">>)
        /\ IF RightJ THEN TRUE ELSE Fail("bad-record")
        /\ i' = 1
        /\ UNCHANGED <<rec, s, m, runs>>
Q == s.seq[i]
b == Q[1]
w == Q[3]
Enters == R.p2 <= 2 * In(E, w, b)
Through == R.p2 <= 2 * Turn(E, w, b)
Lay == E.layers[w][b + 1]
Turning == {k \in 1..Len(Lay) : 2 * Lay[k][4] < R.p2}
\* The first layer at whose bottom the slowness is smaller: there it turns.
F == IF Turning = {} THEN 0 ELSE CHOOSE k \in Turning : \A j \in Turning : k <= j
\* It does so right at the top of it: nothing more of the way.
Grazes(f) == f > 0 /\ 2 * Lay[f][3] = R.p2
\* Of n points in this branch, the layer of the k-th
LayerOf(n, k) == IF Q[2] THEN k ELSE n - k + 1
TurnIn1(f, l) == l = f
DepthOK(f, l, z) ==
    IF ~ Q[2] THEN Near(z, Lay[l][1], 1)
    ELSE IF TurnIn1(f, l) THEN Lay[l][1] - 2 <= z /\ z <= Lay[l][2] + 2
    ELSE Near(z, Lay[l][2], 1)
\* Means between the extremes; rounding of short ways, 1e-5 of u^2.
Lo(f, l) == IF TurnIn1(f, l) THEN R.pp ELSE Min2(Lay[l][5], Lay[l][6])
Hi(l) == Max2(Lay[l][5], Lay[l][6])
Slack(l) == Hi(l) \div 50000 + 3
SnellOK(f, l, pt) ==
    /\ pt[6] < 0 \/ (Lo(f, l) - Slack(l) <= pt[6] /\ pt[6] <= Hi(l) + Slack(l))
    /\ pt[7] < 0 \/ (Lo(f, l) - R.pp - Slack(l) <= pt[7] /\ pt[7] <= Hi(l) - R.pp + Slack(l))
\* The points it leaves in this branch; where it turns almost at once, perhaps
\* one less.
There(f, k) == k <= Len(Pts) /\ DepthOK(f, f, Pts[k][1]) /\ SnellOK(f, f, Pts[k])
AlmostGrazes(f) == Near(Lay[f][5], R.pp, R.pp \div 100000 + 1)
Count1(f) == IF f = 0 THEN Len(Lay)
             ELSE IF Grazes(f) THEN f - 1
             ELSE IF ~ AlmostGrazes(f) THEN f
             ELSE IF There(f, IF Q[2] THEN m + f - 1 ELSE m) THEN f
             ELSE f - 1
\* What the whole branch took, against the sampled rays on both sides.
BB == IF AtSample THEN A ELSE B
In2(v, x, y, tol) == Min2(x, y) - tol <= v /\ v <= Max2(x, y) + tol
Fits(k, c) == In2(Pts[m + k - 1][c] - Pts[m - 1][c],
                  (IF c = 2 THEN E.T ELSE IF c = 3 THEN E.D ELSE E.tau)[w][b + 1][A],
                  (IF c = 2 THEN E.T ELSE IF c = 3 THEN E.D ELSE E.tau)[w][b + 1][BB], 3)
BranchFails(f, n) ==
    IF m + n - 1 > Len(Pts) THEN "point-missing"
    ELSE IF \E k \in 1..n : ~ DepthOK(f, LayerOf(n, k), Pts[m + k - 1][1]) THEN "wrong-depth"
    ELSE IF \E k \in 1..n : ~ SnellOK(f, LayerOf(n, k), Pts[m + k - 1]) THEN "snell"
    ELSE IF n > 0 /\ ~ Fits(n, 5) THEN "wrong-tau"
    ELSE IF n > 0 /\ (Through \/ AtSample) /\ ~ Fits(n, 2) THEN "wrong-time"
    ELSE IF n > 0 /\ (Through \/ AtSample) /\ ~ Fits(n, 3) THEN "wrong-distance"
    ELSE ""
\* ---- along the Moho or the core mantle boundary ---------------------------------
Heads == Len(s.head)
RECURSIVE Total(_, _)
Total(tab, k) == IF k = 0 THEN 0
                 ELSE Total(tab, k - 1) +
                      (IF R.p2 <= 2 * In(E, s.seq[k][3], s.seq[k][1])
                       THEN tab[s.seq[k][3]][s.seq[k][1] + 1][A] ELSE 0)
Run(all, tab) == (all - Total(tab, Len(s.seq))) \div Heads
HeadHere == \E k \in 1..Heads : s.head[k] = i
HeadDepth == IF \E k \in 1..Len(R.legs) : R.legs[k][1] \in DiffLegs
             THEN E.top[E.cmb + 1] ELSE E.top[E.moho + 1]
RunFails(k) ==
    IF k > Len(Pts) THEN "run-missing"
    ELSE IF ~ Near(Pts[k][1], HeadDepth, 1) THEN "run-at-wrong-depth"
    ELSE IF ~ Near(Pts[k][2] - Pts[k - 1][2], Run(R.t, E.T), Len(s.seq) + 3)
         \/ ~ Near(Pts[k][3] - Pts[k - 1][3], Run(R.x, E.D), Len(s.seq) + 3)
         THEN "wrong-run" ELSE ""
Trace ==
    /\ ph = "trace" /\ i <= Len(s.seq)
    /\ LET f == IF Enters THEN F ELSE 0
           n == IF Enters THEN Count1(f) ELSE 0
           \* A run of no length may leave no point.
           run == /\ HeadHere
                  /\ \/ Run(R.t, E.T) > Len(s.seq) + 3 \/ Run(R.x, E.D) > Len(s.seq) + 3
                     \/ m + n <= Len(Pts) /\ Near(Pts[m + n][1], HeadDepth, 1)
           bad == IF Enters THEN BranchFails(f, n) ELSE ""
           hbad == IF bad = "" /\ run THEN RunFails(m + n) ELSE bad
       IN /\ m' = IF run THEN m + n + 1 ELSE m + n
          /\ runs' = IF run THEN runs + 1 ELSE runs
          /\ IF hbad # "" THEN Fail(hbad) ELSE TRUE
          /\ ph' = IF hbad # "" THEN "done" ELSE "trace"
    /\ i' = i + 1 /\ UNCHANGED <<rec, s>>
Ends == Near(Z[2], R.t, 2) /\ Near(Z[3], R.x, 2)
Finish == /\ ph = "trace" /\ i > Len(s.seq) /\ ph' = "done"
          /\ IF m # Len(Pts) + 1 THEN Fail("extra-points")
             ELSE IF AtSample /\ ~ Ends THEN Fail("last-point")
             ELSE TRUE
          /\ PrintT(<<"V", IF Heads > 0 THEN "head" ELSE IF AtSample THEN "at a sample" ELSE "between">>)
          /\ UNCHANGED <<rec, i, s, m, runs>>
Surface == /\ ph = "kmps" /\ ph' = "done" /\ UNCHANGED <<rec, i, s, m, runs>>
           /\ \A f \in Sound : Fail(f)
           /\ IF Len(Pts) = 2 THEN TRUE ELSE Fail("extra-points")
           /\ IF Ends THEN TRUE ELSE Fail("last-point")
           /\ PrintT(<<"V", "surface wave">>)
TraceSpec == Init /\ [][Walk \/ Look \/ Trace \/ Finish \/ Surface]_vars
==============================================================================
