----------------------------- MODULE LookupTrace -----------------------------
(***************************************************************************)
(* Depths looked up by the code under test.  All depths and ray parameters  *)
(* of a model are ranks (order exact); models: the tables                   *)
(*   P, S (slowness layers), V (velocity layers), B (branches), F (fluids)  *)
(*   as <<top, bottom>>; ZP, ZS zones <<top, bottom, p>>;                   *)
(*   UP, US: <<slowness at top, at bottom>> of the velocity layers, NP, NS: *)
(*   of the P wave or S wave (P in a fluid) below it, 0 at the end;         *)
(*   vel: <<top, bottom, Ptop, Pbot, Stop, Sbot>> in ten-thousandths; R: radius *)
(* Records: [m, k, d, out |-> "ok"/"refused", n |-> answer, w, up, p, a, b, *)
(*   dd: answered depth (wide, 1e-9 km), pp: the ray parameter (wide, 1e-9)]*)
(***************************************************************************)
EXTENDS Lookup, Wide, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
Models == Data.models
VARIABLES rec, s, judged
vars == <<rec, s, judged>>
R == Recs[rec]
M == Models[R.m]
W(p, q) == IF R.w = "P" THEN p ELSE q
Init == /\ \E r \in 1..Len(Recs) : rec = r
        /\ s = [k |-> IF Recs[rec].k \in {"turn", "turndepth"} THEN Recs[rec].a ELSE 0, at |-> "on"]
        /\ judged = FALSE
Turning == R.k \in {"turn", "turndepth"}
Look == /\ Turning /\ s.at = "on"
        /\ s' = Search(s, W(M.UP, M.US), W(M.NP, M.NS), R.b, R.p)
        /\ UNCHANGED <<rec, judged>>
Fine(n) == WTimes(100000, WOf(n))
\* p * v(d) = R - d in layer k to 5e-6 km
TurnsAt(k, got, p) ==
    LET l == M.vel[k]
        top == Fine(l[1])  bot == Fine(l[2])
        d == IF WLess(got, top) THEN top ELSE IF WLess(bot, got) THEN bot ELSE got
        vt == IF R.w = "P" THEN l[3] ELSE l[5]
        vb == IF R.w = "P" THEN l[4] ELSE l[6]
        thick == WSub(bot, top)
        v == WAdd(WMul(WOf(vt), WSub(bot, d)), WMul(WOf(vb), WSub(d, top)))
        rad == WSub(Fine(M.R), d)
    IN /\ WNear(got, d, WOf(5000))
       /\ WNear(WMul(p, v), WTimes(10000, WMul(thick, rad)), WTimes(10000, WTimes(5000, thick)))
TurnFails ==
    IF s.at = "nowhere" THEN IF R.out = "refused" THEN {} ELSE {"turning-depth-invented"}
    ELSE IF R.out # "ok" THEN {"turning-depth-not-found"}
    ELSE IF s.at = "bottom"
         THEN IF WNear(R.dd, Fine(M.vel[s.k][2]), WOf(5000)) THEN {} ELSE {"turning-depth"}
    ELSE IF TurnsAt(s.k, R.dd, R.pp) THEN {} ELSE {"turning-depth"}
\* the velocity model finds no layer above the surface or below the centre
Lookup(ls, strict) ==
    LET ok == Inside(ls, R.d) /\ ~ (strict /\ R.d = (IF R.up THEN ls[1][1] ELSE ls[Len(ls)][2]))
    IN IF ~ Inside(ls, R.d) THEN IF R.out = "refused" THEN {} ELSE {"outside-accepted"}
       ELSE IF R.out # "ok" THEN IF ok THEN {"inside-refused"} ELSE {}
       ELSE IF (IF R.up THEN IsAbove(ls, R.d, R.n) ELSE IsBelow(ls, R.d, R.n)) THEN {}
       ELSE {IF R.up THEN "layer-above" ELSE "layer-below"}
Fails ==
    CASE R.k = "slow" -> Lookup(W(M.P, M.S), FALSE)
      [] R.k = "vel" -> Lookup(M.V, TRUE)
      [] R.k = "branch" ->
            IF ~ Inside(M.B, R.d) THEN IF R.out = "refused" THEN {} ELSE {"outside-accepted"}
            ELSE IF R.out = "ok" /\ IsIn(M.B, R.d, R.n) THEN {} ELSE {"branch"}
      [] R.k = "fluid" -> IF R.out = "ok" /\ (R.n = 1) = InRange(M.F, R.d) THEN {} ELSE {"fluid"}
      [] R.k = "zone" -> IF R.out = "ok" /\ (R.n = 1) = InZone(W(M.ZP, M.ZS), R.d, R.p) THEN {}
                         ELSE {"low-velocity-zone"}
      [] OTHER -> TurnFails
Judge == /\ ~ judged /\ (Turning => s.at # "on")
         /\ judged' = TRUE /\ UNCHANGED <<rec, s>>
         /\ \A x \in Fails : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", R.k \o " " \o R.out>>)
TraceSpec == Init /\ [][Look \/ Judge]_vars
==============================================================================
