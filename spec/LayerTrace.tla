----------------------------- MODULE LayerTrace ------------------------------
(***************************************************************************)
(* Layers asked of the code under test.                                    *)
(*  pieces  the layer [1] and its cuts, one entry per piece of every stage: *)
(*          [u1, u2 slowness at top and bottom (wide 1e-9), r1, r2 radii    *)
(*          (wide 1e-9), L logarithm of their ratio (wide 1e-12), T (1e-9 s), *)
(*          D (1e-12), ok, zero: no thickness, micro: less than a micrometre, *)
(*          centre]                                                         *)
(*  stages  <<pieces of the stage>>: the sequence of partitions (numbers of *)
(*          pieces)                                                         *)
(*  p       the ray parameter (wide 1e-9)                                   *)
(*  finds   depths found: [q slowness asked (wide 1e-9), r radius found,    *)
(*          back slowness found there (1e-9), r1, r2 of the layer, ok]      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Wide, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, i, st, bad, judged
vars == <<rec, i, st, bad, judged>>
R == Recs[rec]
Init == \E r \in 1..Len(Recs) : rec = r /\ i = 1 /\ st = 1 /\ bad = {} /\ judged = FALSE
Min(a, b) == IF WLeq(a, b) THEN a ELSE b
Max(a, b) == IF WLeq(a, b) THEN b ELSE a
Sq(a) == WMul(a, a)
Giga(a) == WTimes(1000000000, a)
\* a <= b up to one part in 1e9 and an absolute part
AtMost(a, b, tol) == WLeq(Giga(a), WAdd(WAdd(Giga(b), b), Giga(tol)))
\* L is the logarithm of r1 / r2:  2 (r1 - r2) / (r1 + r2) <= L <= (r1 - r2) / sqrt(r1 r2)
Tera == WMul(WOf(1000000), WOf(1000000))
LogOK(x) == LET dr == WSub(x.r1, x.r2)
                lo == WTimes(2, WMul(Tera, dr))
                hi == WMul(Tera, dr)
                slack == WOf(4)
            IN /\ WLeq(lo, WMul(WAdd(x.L, slack), WAdd(x.r1, x.r2)))
               /\ (WLess(slack, x.L) =>
                     WLeq(WMul(Sq(WSub(x.L, slack)), WMul(x.r1, x.r2)), Sq(hi)))
\* (u^2 - p^2), never negative
Gap(u) == IF WLeq(R.p, u) THEN WSub(Sq(u), Sq(R.p)) ELSE <<>>
PieceFails(x) ==
    IF ~ x.ok THEN {"refused"}
    ELSE IF x.zero THEN IF WEq(x.T, <<>>) /\ WEq(x.D, <<>>) THEN {} ELSE {"no-thickness"}
    ELSE IF x.centre THEN
        (IF WNear(x.D, R.halfpi, WOf(1000)) THEN {} ELSE {"centre-distance"})
        \cup (IF WNear(x.T, x.u1, WOf(100)) THEN {} ELSE {"centre-time"})
    ELSE IF x.micro THEN IF WLeq(x.T, WOf(10000000)) /\ WLeq(x.D, WTimes(10, WOf(1000000000))) THEN {} ELSE {"micro"}
    ELSE IF ~ LogOK(x) THEN {"witness"}
    ELSE
    LET lo == Min(x.u1, x.u2)  hi == Max(x.u1, x.u2)
        pl == WMul(Sq(R.p), Sq(x.L))                                \* 1e-18 * 1e-24
        \* rounding: of u, p (1e-9), of L and D (1e-12, some units)
        dtol == WAdd(WTimes(8, WMul(Sq(WAdd(x.D, WOf(10))), hi)),
                     WTimes(16, WMul(Sq(hi), WAdd(x.L, WAdd(x.D, WOf(10))))))
        tau == LET pd == WMul(R.p, x.D)                             \* 1e-21
                   t == WMul(Tera, x.T)
               IN IF WLeq(pd, t) THEN WSub(t, pd) ELSE <<>>
        \* tau <= L * sqrt(hi^2 - p^2):  units 1e-21 against 1e-12 * 1e-9
        unit == WMul(Tera, WOf(20))                                 \* 2e-8 s
        tau2 == Sq(tau)
        more == Sq(WAdd(tau, unit))
        less == IF WLeq(tau, unit) THEN <<>> ELSE Sq(WSub(tau, unit))
        utol == WMul(Sq(WAdd(x.L, WOf(10))), WTimes(8, hi))
    IN (IF AtMost(WMul(Sq(x.D), Gap(lo)), pl, dtol) THEN {} ELSE {"distance-too-large"})
       \cup (IF AtMost(pl, WMul(Sq(x.D), Gap(hi)), dtol) THEN {} ELSE {"distance-too-small"})
       \cup (IF AtMost(less, WMul(Sq(x.L), Gap(hi)), utol) THEN {} ELSE {"time-too-large"})
       \cup (IF AtMost(WMul(Sq(x.L), Gap(lo)), more, utol) THEN {} ELSE {"time-too-small"})
Piece == /\ i <= Len(R.pieces)
         /\ bad' = bad \cup PieceFails(R.pieces[i])
         /\ i' = i + 1 /\ UNCHANGED <<rec, st, judged>>
RECURSIVE Total(_, _, _)
Total(ns, k, what) == IF k = 0 THEN <<>>
                      ELSE WAdd(IF what = "T" THEN R.pieces[ns[k]].T ELSE R.pieces[ns[k]].D,
                                Total(ns, k - 1, what))
AllOK(ns) == \A k \in 1..Len(ns) : R.pieces[ns[k]].ok
\* the stage before and this one
Stage == /\ i > Len(R.pieces) /\ st < Len(R.stages)
         /\ LET a == R.stages[st]  b == R.stages[st + 1]
                ta == Total(a, Len(a), "T")  tb == Total(b, Len(b), "T")
                da == Total(a, Len(a), "D")  db == Total(b, Len(b), "D")
            IN bad' = bad \cup
                (IF ~ AllOK(a) \/ ~ AllOK(b) THEN {}
                 ELSE (IF WNear(Giga(ta), Giga(tb), WAdd(WTimes(100, ta), Giga(WOf(1000)))) THEN {} ELSE {"cut-changes-time"})
                      \cup (IF WNear(Giga(da), Giga(db), WAdd(WTimes(100, da), Giga(R.dtol))) THEN {}
                            ELSE {"cut-changes-distance"}))
         /\ st' = st + 1 /\ UNCHANGED <<rec, i, judged>>
FindFails(x) ==
    IF ~ x.ok THEN {"depth-not-found"}
    ELSE (IF WLeq(x.r2, WAdd(x.r, WOf(2))) /\ WLeq(x.r, WAdd(x.r1, WOf(2))) THEN {} ELSE {"depth-outside"})
         \cup (IF WNear(Giga(x.q), Giga(x.back), WAdd(WTimes(100, x.q), Giga(x.tol))) THEN {} ELSE {"depth-slowness"})
Judge == /\ i > Len(R.pieces) /\ st >= Len(R.stages) /\ ~ judged
         /\ judged' = TRUE /\ UNCHANGED <<rec, i, st, bad>>
         /\ LET all == bad \cup UNION {FindFails(R.finds[k]) : k \in 1..Len(R.finds)}
            IN \A x \in all : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", IF R.pieces[1].centre THEN "centre" ELSE IF R.pieces[1].zero THEN "nothing" ELSE "layer">>)
TraceSpec == Init /\ [][Piece \/ Stage \/ Judge]_vars
==============================================================================
