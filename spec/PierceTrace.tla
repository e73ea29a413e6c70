----------------------------- MODULE PierceTrace ------------------------------
(***************************************************************************)
(* Follows the walk of Ray.tla with the pierce points of one arrival.      *)
(*  e, legs   as in RayTrace                                               *)
(*  p2        twice the rank of its ray parameter, odd between two values  *)
(*  close     it is very near to a sample, but not equal to it             *)
(*  twice     1: the phase has two rays of just this ray parameter         *)
(*  x, t, p   distance (1e-7 rad), time (1e-4 s), ray parameter (1e-5 s)   *)
(*  src       source depth (1e-5 km)                                       *)
(*  j         the last sampled ray parameter that is not smaller           *)
(*  pts       its points <<depth, time, distance, ray parameter>>          *)
(* The walk passes branches; the ray gets into branch b of it if its ray   *)
(* parameter is at most In(b).  On its way down it then leaves a point at  *)
(* the bottom of the branch, or at the depth where it turns; on its way up *)
(* one at the top.  Time and distance so far lie between those of the      *)
(* sampled rays on both sides.                                             *)
(***************************************************************************)
EXTENDS Ray, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
Earths == SeqOf(LAMBDA i : WithLimits(Data.earths[i]), Len(Data.earths))
VARIABLES rec, i, s, m, acc, runs, ph, single
vars == <<rec, i, s, m, acc, runs, ph, single>>
R == Recs[rec]
E == Earths[R.e]
Pts == R.pts
Zero == [ta |-> 0, tb |-> 0, da |-> 0, db |-> 0]
Init == \E r \in 1..Len(Recs) :
    /\ rec = r /\ i = 1 /\ m = 2 /\ single = FALSE /\ acc = Zero /\ runs = 0
    /\ ph = IF Recs[r].legs[1][1] = "kmps" THEN "kmps" ELSE "walk"
    /\ s = IF Recs[r].legs[1][1] = "kmps" THEN [st |-> "kmps"]
           ELSE Start(Earths[Recs[r].e], Recs[r].legs)
Fail(x) == PrintT(<<"FAIL", rec, x>>)
Walk == /\ ph = "walk" /\ s.st = "go" /\ i < Len(R.legs)
        /\ s' = Step(E, s, R.legs, i) /\ i' = i + 1
        /\ UNCHANGED <<rec, m, acc, runs, ph, single>>

\* ---- what holds for every arrival --------------------------------------------
Near(a, b, tol) == Abs(a - b) <= tol
Sound ==
    (IF Len(Pts) >= 1 /\ Pts[1] = <<R.src, 0, 0, Pts[1][4]>> THEN {} ELSE {"first-point"})
    \cup (IF Len(Pts) >= 1 /\ LET z == Pts[Len(Pts)] IN
              z[1] = 0 /\ Near(z[2], R.t, 2) /\ Near(z[3], R.x, 2)
          THEN {}
          \* At the edge of a shadow zone one ray parameter has two rays.
          ELSE IF R.twice = 1 THEN {}
          \* No such ray: the next larger sample that stands for the horizontal one.
          ELSE IF s.st = "go" /\ R.t = 0 /\ R.p2 > 2 * s.max THEN {} ELSE {"last-point"})
    \cup (IF \A k \in 1..Len(Pts) - 1 : Pts[k][2] <= Pts[k + 1][2] /\ Pts[k][3] <= Pts[k + 1][3]
          THEN {} ELSE {"backwards"})
    \cup (IF \A k \in 1..Len(Pts) : Near(Pts[k][4], R.p, 2) THEN {} ELSE {"ray-parameter"})
    \cup (IF \A k \in 1..Len(Pts) : Pts[k][1] \in 0..E.bottom THEN {} ELSE {"outside"})

\* ---- the itinerary -------------------------------------------------------------
A == R.j
B == Min2(A + 1, Len(E.rp))
RightJ == /\ 2 * E.rp[A] >= R.p2 \/ A = 1
          /\ A < Len(E.rp) => 2 * E.rp[A + 1] < R.p2
IsSingle == LastAtLeast(E, s.max) = LastAtLeast(E, s.min)
\* A limit between the two sampled rays: the curve is no guide there.
Between(x) == E.rp[A] > x /\ x > E.rp[B] /\ R.p2 # 2 * x
Blurred == \/ R.p2 > 2 * E.rp[1]
           \/ \E k \in 1..Len(s.seq) :
                 Between(In(E, s.seq[k][3], s.seq[k][1])) \/ Between(Turn(E, s.seq[k][3], s.seq[k][1]))
           \/ R.twice = 1
           \/ IsSingle /\ 2 * E.rp[A] # R.p2
Judgeable == s.st = "go" /\ s.max >= s.min /\ ~ (HasJ(R.legs) /\ ~ E.jok) /\ ~ Blurred
Look == /\ ph = "walk" /\ (s.st # "go" \/ i = Len(R.legs))
        /\ \A f \in Sound : Fail(f)
        /\ LET ok == Judgeable IN
           /\ ph' = IF ok THEN "trace" ELSE "done"
           /\ single' = IF ok THEN IsSingle ELSE FALSE
        /\ IF RightJ THEN TRUE ELSE Fail("bad-record")
        /\ IF ph' = "trace" THEN TRUE ELSE PrintT(<<"V", IF s.st = "odd" THEN "odd" ELSE "blurred">>)
        /\ i' = 1
        /\ UNCHANGED <<rec, s, m, acc, runs>>
Q == s.seq[i]
b == Q[1]
w == Q[3]
Enters == R.p2 <= 2 * In(E, w, b)
Through == R.p2 <= 2 * Turn(E, w, b)
Bottom == IF b + 1 = E.n THEN E.bottom ELSE E.top[b + 2]
Lay == E.layers[w][b + 1]
\* The layer in which it turns: the first one with a smaller slowness at its bottom
TurnsAt(z) == LET K == {k \in 1..Len(Lay) : 2 * Lay[k][4] <= R.p2}
                  f == CHOOSE k \in K : \A j \in K : k <= j
              IN /\ K # {}
                 /\ Lay[f][1] - 2 <= z /\ z <= Lay[f][2] + 2
                 /\ (2 * Lay[f][3] = R.p2 => Near(z, Lay[f][1], 2))
                 /\ (2 * Lay[f][4] = R.p2 => Near(z, Lay[f][2], 2))
DepthOK(z) == IF ~ Q[2] THEN Near(z, E.top[b + 1], 1)
              ELSE IF Through THEN Near(z, Bottom, 1)
              ELSE TurnsAt(z)
\* A single ray, or one exactly at a sample, is that sample.
BB == IF single \/ R.p2 = 2 * E.rp[A] THEN A ELSE B
Now == [ta |-> acc.ta + E.T[w][b + 1][A], tb |-> acc.tb + E.T[w][b + 1][BB],
        da |-> acc.da + E.D[w][b + 1][A], db |-> acc.db + E.D[w][b + 1][BB]]
Optional == LET x == E.T[w][b + 1][A]  y == E.T[w][b + 1][BB] IN
            IF R.close THEN x <= 1 \/ y <= 1 ELSE x <= 1 /\ y <= 1
Tol == Len(s.seq) + 3
In2(v, x, y) == Min2(x, y) - Tol <= v /\ v <= Max2(x, y) + Tol
\* Head and diffracted waves share the run along the boundary equally.
Heads == Len(s.head)
RECURSIVE Total(_, _)
Total(tab, k) == IF k = 0 THEN 0
                 ELSE Total(tab, k - 1) +
                      (IF R.p2 <= 2 * In(E, s.seq[k][3], s.seq[k][1])
                       THEN tab[s.seq[k][3]][s.seq[k][1] + 1][A] ELSE 0)
Run(n, all, tab) == IF Heads = 0 \/ n = 0 THEN 0
                    ELSE (n * (all - Total(tab, Len(s.seq)))) \div Heads
TimeOK(pt, n, x) == In2(pt[2], x.ta + Run(n, R.t, E.T), x.tb + Run(n, R.t, E.T))
DistOK(pt, n, x) == In2(pt[3], x.da + Run(n, R.x, E.D), x.db + Run(n, R.x, E.D))
Fits(pt, n, x) == TimeOK(pt, n, x) /\ DistOK(pt, n, x)
HeadHere == \E k \in 1..Heads : s.head[k] = i
\* the boundary a head or diffracted wave runs along
HeadDepth == IF \E k \in 1..Len(R.legs) : R.legs[k][1] \in DiffLegs
             THEN E.top[E.cmb + 1] ELSE E.top[E.moho + 1]
Here == m <= Len(Pts) /\ DepthOK(Pts[m][1])
\* One branch of the walk.
\* The branch at whose top a head wave turns leaves no point of its own.
HeadNext == \E k \in 1..Heads : s.head[k] = i + 1
Taken == Enters /\ (IF Optional THEN ~ HeadHere /\ ~ HeadNext /\ Here /\ Fits(Pts[m], runs, Now) ELSE TRUE)
Trace ==
    /\ ph = "trace" /\ i <= Len(s.seq)
    /\ LET new == IF Enters THEN Now ELSE acc
           m2 == IF Taken THEN m + 1 ELSE m
           bad == IF ~ Taken THEN ""
                  ELSE IF m > Len(Pts) THEN "point-missing"
                  ELSE IF ~ DepthOK(Pts[m][1]) THEN "wrong-depth"
                  ELSE IF ~ TimeOK(Pts[m], runs, Now) THEN "wrong-time"
                  ELSE IF ~ DistOK(Pts[m], runs, Now) THEN "wrong-distance" ELSE ""
           hbad == IF ~ HeadHere THEN ""
                   ELSE IF m2 > Len(Pts) THEN "run-missing"
                   ELSE IF ~ Near(Pts[m2][1], HeadDepth, 1) THEN "run-at-wrong-depth"
                   ELSE IF ~ Fits(Pts[m2], runs + 1, new) THEN "wrong-run" ELSE ""
       IN /\ acc' = new
          /\ m' = IF HeadHere THEN m2 + 1 ELSE m2
          /\ runs' = IF HeadHere THEN runs + 1 ELSE runs
          /\ IF bad # "" THEN Fail(bad) ELSE IF hbad # "" THEN Fail(hbad) ELSE TRUE
          /\ ph' = IF bad # "" \/ hbad # "" THEN "done" ELSE "trace"
    /\ i' = i + 1 /\ UNCHANGED <<rec, s, single>>
Finish == /\ ph = "trace" /\ i > Len(s.seq) /\ ph' = "done"
          /\ IF m # Len(Pts) + 1 THEN Fail("extra-points") ELSE TRUE
          /\ PrintT(<<"V", IF Heads > 0 THEN "head" ELSE "itinerary">>)
          /\ UNCHANGED <<rec, i, s, m, acc, runs, single>>
Surface == /\ ph = "kmps" /\ ph' = "done" /\ UNCHANGED <<rec, i, s, m, acc, runs, single>>
           /\ \A f \in Sound : Fail(f)
           /\ IF Len(Pts) = 2 THEN TRUE ELSE Fail("extra-points")
           /\ PrintT(<<"V", "surface wave">>)
TraceSpec == Init /\ [][Walk \/ Look \/ Trace \/ Finish \/ Surface]_vars
==============================================================================
