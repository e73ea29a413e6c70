---------------------------- MODULE BranchesTrace ----------------------------
(***************************************************************************)
(* Tau branches of the code under test, one wave type of one model each:    *)
(*   w        "P" or "S"                                                    *)
(*   layers   slowness layers [t, b, p, q] (ranks)                          *)
(*   rays     ranks of the ray parameters; U: their values (wide, 1e-9)     *)
(*   crit     ranks of the critical depths                                  *)
(*   br       branches [top, bot, max, turn, min: ranks (-1: no slowness of *)
(*            the model), T, D, tau: per ray (wide: 1e-9 s, 1e-12 rad,      *)
(*            1e-9 s), neg: number of negative values]                      *)
(*   lt       per layer <<first ray that goes through, <<T, D>> of it and of *)
(*            those after>>, or <<>> if not recorded                        *)
(*   marks    <<depth in the velocity model, top of the branch said to      *)
(*            begin there>> for Moho, CMB, IOCB, where the model has them   *)
(***************************************************************************)
EXTENDS Branches, Wide, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, ph, s, nr, first, j, bad
vars == <<rec, ph, s, nr, first, j, bad>>
R == Recs[rec]
Init == \E r \in 1..Len(Recs) :
    /\ rec = r /\ ph = "down" /\ s = StartDown(Recs[r].layers)
    /\ nr = 1 /\ first = <<1>> /\ j = 0 /\ bad = {}
Bots == [k \in 1..Len(R.br) |-> R.br[k].bot]
IsS == R.w = "S"
\* ---- going down: cover, limits, rays -----------------------------------------------
Covered == /\ Len(R.br) = Len(R.crit) - 1
           /\ \A k \in 1..Len(R.br) : R.br[k].top = R.crit[k] /\ R.br[k].bot = R.crit[k + 1]
Cover == /\ ph = "down" /\ s.i = 1 /\ j = 0
         /\ bad' = (IF Covered THEN {} ELSE {"branch-depths"})
                   \cup (IF \A m \in 1..Len(R.marks) : R.marks[m][1] = R.marks[m][2]
                         THEN {} ELSE {"moho-cmb-iocb"})
                   \cup (IF R.rays # <<>> /\ (~ IsS \/ R.rays[1] = R.layers[1].p) THEN {}
                         ELSE {"first-ray"})
                   \cup (IF \A k \in 1..Len(R.rays) - 1 : R.rays[k + 1] < R.rays[k] THEN {}
                         ELSE {"rays-not-decreasing"})
         /\ ph' = IF Covered THEN "down" ELSE "done"
         /\ j' = 1 /\ nr' = 2 /\ UNCHANGED <<rec, s, first>>
Down == /\ ph = "down" /\ j = 1 /\ s.i <= Len(R.layers) /\ s.j <= Len(R.br)
        /\ s' = Descend(s, R.layers, Bots)
        /\ LET new == IF IsS THEN NewRays(R.layers, s.i, s.mn) ELSE <<>>
               ok == \A k \in 1..Len(new) : nr + k - 1 <= Len(R.rays) /\ R.rays[nr + k - 1] = new[k]
           IN /\ nr' = nr + Len(new)
              /\ bad' = bad \cup IF ok THEN {} ELSE {"ray-missing-or-odd"}
        /\ first' = IF s'.j > s.j THEN Append(first, s'.i) ELSE first
        /\ UNCHANGED <<rec, ph, j>>
LimitFails == UNION {
    (IF R.br[k].max = s.got[k].max THEN {} ELSE {"largest-ray-parameter"})
    \cup (IF R.br[k].turn = s.got[k].turn THEN {} ELSE {"smallest-turning-ray-parameter"})
    \cup (IF R.br[k].min = s.got[k].min THEN {} ELSE {"smallest-ray-parameter"}) : k \in 1..Len(s.got)}
Limits == /\ ph = "down" /\ j = 1 /\ (s.i > Len(R.layers) \/ s.j > Len(R.br))
          /\ bad' = bad \cup (IF Len(s.got) = Len(R.br) THEN LimitFails ELSE {"branch-depths"})
                        \cup (IF IsS /\ nr # Len(R.rays) + 1 THEN {"ray-missing-or-odd"} ELSE {})
          /\ ph' = IF Len(s.got) = Len(R.br) /\ \A k \in 1..Len(R.br) :
                        Len(R.br[k].T) = Len(R.rays) THEN "rays" ELSE "done"
          /\ UNCHANGED <<rec, s, nr, first, j>>
\* ---- branch j, all rays -----------------------------------------------------------------
B == R.br[j]
Lim == s.got[j]
Lo == first[j]  Hi == first[j + 1] - 1                 \* its layers
MinIn == LET RECURSIVE M(_) M(i) == IF i > Hi THEN R.rays[1] ELSE Less(Less(R.layers[i].p, R.layers[i].q), M(i + 1)) IN M(Lo)
Zero(k) == B.T[k] = <<>> /\ B.D[k] = <<>> /\ B.tau[k] = <<>>
\* the sums over the layers down to where the ray turns
RECURSIVE SumOf(_, _, _, _)
SumOf(k, i, c, acc) ==
    IF i > Hi THEN acc
    ELSE LET l == R.layers[i]
         IN IF R.rays[k] > Less(l.p, l.q) THEN acc
            ELSE LET e == R.lt[i] IN SumOf(k, i + 1, c, IF e = <<>> THEN acc ELSE WAdd(acc, e[2][k - e[1] + 1][c]))
Small == WOf(20)                                        \* 2e-8 s
RayFails(k) ==
    LET p == R.rays[k]  enters == p <= Lim.max IN
    (IF enters \/ Zero(k) THEN {} ELSE {"not-entering"})
    \cup (IF WNear(WTimes(1000, WMul(WOf(1000000000), B.T[k])), WAdd(WMul(R.U[k], B.D[k]), WMul(WOf(1000000000), WTimes(1000, B.tau[k]))),
                   WMul(WOf(1000000000), WTimes(1000, Small))) THEN {} ELSE {"tau"})
    \cup (IF k > 1 /\ ~ WLeq(B.tau[k - 1], WAdd(B.tau[k], Small)) THEN {"tau-increases"} ELSE {})
    \cup (IF ~ enters \/ R.lt = <<>> THEN {}
          ELSE (IF WNear(B.T[k], SumOf(k, Lo, 1, <<>>), Small) THEN {} ELSE {"time-of-layers"})
               \cup (IF WNear(B.D[k], SumOf(k, Lo, 2, <<>>), WOf(20000)) THEN {} ELSE {"distance-of-layers"}))
\* both rays go all the way through: tau is convex with slope - distance
SlopeFails(k, mi) ==
    IF k = 1 \/ R.rays[k - 1] > mi \/ R.rays[k - 1] > Lim.max \/ R.rays[k] = 1 THEN {}
    ELSE LET dp == WDist(R.U[k - 1], R.U[k])
             dt == WTimes(1000, WMul(WOf(1000000000), WDist(B.tau[k], B.tau[k - 1])))
             tol == WTimes(1000, WMul(WOf(1000000000), Small))
         IN IF WLeq(WMul(dp, B.D[k]), WAdd(dt, tol)) /\ WLeq(dt, WAdd(WMul(dp, B.D[k - 1]), tol)) THEN {}
            ELSE {"slope-of-tau"}
Branch == /\ ph = "rays" /\ j <= Len(R.br)
          /\ LET mi == MinIn IN
             bad' = bad \cup UNION {RayFails(k) \cup SlopeFails(k, mi) : k \in 1..Len(R.rays)}
                        \cup (IF B.neg > 0 THEN {"negative"} ELSE {})
          /\ j' = j + 1 /\ UNCHANGED <<rec, ph, s, nr, first>>
Judge == /\ \/ ph = "rays" /\ j > Len(R.br)
            \/ ph = "done"
         /\ ph' = "judged"
         /\ \A x \in bad : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", R.w>>)
         /\ UNCHANGED <<rec, s, nr, first, j, bad>>
TraceSpec == Init /\ [][Cover \/ Down \/ Limits \/ Branch \/ Judge]_vars
==============================================================================
