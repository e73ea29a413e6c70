--------------------------- MODULE StructureTrace ----------------------------
(***************************************************************************)
(* Slowness models made by the code under test, against their velocity     *)
(* files.  A record is read (Velocity), scanned (Structure), and then its  *)
(* slowness layers are walked one by one, P and S.                         *)
(*   lines, jok                   the file; S waves in the inner core?     *)
(*   made     "yes", or the kind of the exception that refused the model   *)
(*   crit     critical depths     fluid    <<top, bottom>> pairs           *)
(*   zP, zS   low velocity zones [top, bot (wide 1e-9), p (1e-7)]             *)
(*   P, S     layers [t, b: depths as ranks; p, q: slownesses at top and   *)
(*            bottom as ranks (shared by P and S); jump: difference of the *)
(*            distances of the rays that turn at its bottom and at its top *)
(*            (1e-8 rad); td, pd: times (1e-6 s) and distances (1e-9 rad)  *)
(*            of the rays for the error of interpolation]                  *)
(*   D, U     the depths (wide, 1e-9 km) and slownesses (wide, 1e-7) behind *)
(*            the ranks; inS: is a slowness sampled in S? ray: does S turn there? *)
(*   lim      [dp (wide 1e-7), dmin, depth (wide 1e-9), range (1e-8 rad),  *)
(*            err (wide 1e-6 s)]                                           *)
(***************************************************************************)
EXTENDS Structure, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, f, s, w, i, at, min, bad
vars == <<rec, f, s, w, i, at, min, bad>>
R == Recs[rec]
Init == \E r \in 1..Len(Recs) :
    /\ rec = r /\ f = StartFile /\ s = [k |-> 0] /\ w = "read" /\ i = 1
    /\ at = 1 /\ min = 0 /\ bad = {}
Read == /\ w = "read" /\ f.at <= Len(R.lines)
        /\ f' = ReadLine(f, R.lines[f.at])
        /\ IF f'.st # "reading" THEN Assert(FALSE, <<"bad file", rec>>) ELSE TRUE
        /\ UNCHANGED <<rec, s, w, i, at, min, bad>>
L == f.layers
StartS == /\ w = "read" /\ f.at > Len(R.lines)
          /\ w' = "scan" /\ s' = StartScan(L, R.jok)
          /\ UNCHANGED <<rec, f, i, at, min, bad>>
ScanS == /\ w = "scan" /\ s.k <= Len(L)
         /\ s' = Scan(s, L, R.jok)
         /\ UNCHANGED <<rec, f, w, i, at, min, bad>>

\* ---- what the scan found -------------------------------------------------------
Fine(n) == WTimes(100000, WOf(n))                    \* depth to 1e-9 km
Cm == WOf(5000)                                      \* 5e-6 km
VelAt(wv, d, k) ==                                   \* velocity at d * thickness of layer k
    LET l == L[k]
        vt == VTop(L, k, wv, R.jok)  vb == VBot(L, k, wv, R.jok)
    IN WAdd(WMul(WOf(vt), WSub(Fine(l[2]), d)), WMul(WOf(vb), WSub(d, Fine(l[1]))))
\* p * v(d) = R - d, for depth d in layer k: to Cm.  (units 1e-11 * 1e-9)
SlownessIs(p, d, k, wv) ==
    LET l == L[k]
        thick == Fine(l[2] - l[1])
        lhs == WMul(p, VelAt(wv, d, k))              \* 1e-7 * 1e-4 * thick
        rad == IF WLeq(d, Fine(Radius(L))) THEN WSub(Fine(Radius(L)), d) ELSE <<>>
        rhs == WMul(WTimes(100, thick), rad)         \* 1e-9 km -> 1e-11
    IN WNear(lhs, rhs, WMul(WTimes(100, thick), Cm))
ZoneOK(z, got, wv) ==
    /\ got.top = z.top
    \* ray parameter: p * v = r   (1e-7 * 1e-4 against 1e-4)
    /\ WNear(WMul(got.p, WOf(z.rp.d)), WTimes(10000000, WOf(z.rp.n)), WTimes(20, WOf(z.rp.d)))
    /\ IF z.bot # -1 THEN WEq(got.bot, Fine(z.bot))
       ELSE /\ WLess(Fine(L[z.in][1]), WAdd(got.bot, Cm)) /\ WLeq(got.bot, Fine(L[z.in][2]))
            /\ SlownessIs(got.p, got.bot, z.in, wv)
ZonesOK(zs, got, wv) == /\ Len(zs) = Len(got)
                        /\ \A j \in 1..Len(zs) : ZoneOK(zs[j], got[j], wv)
ScanFails ==
    (IF R.crit = Crit(s, L) THEN {} ELSE {"critical-depths"})
    \cup (IF ZonesOK(s.P.zones, R.zP, "P") THEN {} ELSE {"low-velocity-zones-P"})
    \cup (IF ZonesOK(s.S.zones, R.zS, "S") THEN {} ELSE {"low-velocity-zones-S"})
    \cup (IF R.fluid = s.fluids THEN {} ELSE {"fluids"})
\* A model may be refused if a zone begins where another one ends or right at the
\* surface: nothing is claimed about their zones.
MayRefuse == \/ Touch(s.P.zones) \/ Touch(s.S.zones)
             \/ \E wv \in {"P", "S"} : s[wv].zones # <<>> /\ s[wv].zones[1].top = 0
             \/ Fluid(L[1])
             \/ Moho(L) > CMB(L) \/ CMB(L) > IOCB(L)       \* nor about core in the crust
ToLayers == /\ w = "scan" /\ s.k > Len(L)
            /\ bad' = IF MayRefuse THEN {}
                      ELSE IF R.made = "yes" THEN ScanFails ELSE {"refused-model"}
            /\ w' = IF R.made = "yes" THEN "P" ELSE "done"
            /\ i' = 1 /\ at' = 1 /\ min' = Len(R.U)
            /\ UNCHANGED <<rec, f, s>>

\* ---- the slowness layers ----------------------------------------------------------
Ls == IF w = "P" THEN R.P ELSE R.S
\* R.ray[u]: does S turn at slowness u at the end of a layer?  (checked on the way)
Claim(j, mn) == /\ (Ls[j].p <= mn => R.ray[Ls[j].p])
                /\ (Ls[j].q <= mn /\ Ls[j].q <= Ls[j].p => R.ray[Ls[j].q])
Depth(r) == R.D[r]
Slow(r) == R.U[r]
Discs == Discons(L)
\* at: the layer of the velocity model at whose top or inside of which we are
RECURSIVE Down(_, _)
Down(k, d) == IF k < Len(L) /\ WLeq(Fine(L[k][2]), d) THEN Down(k + 1, d) ELSE k
Holding(j) == {k \in {at - 1, at} : /\ k > 0 /\ WLeq(Depth(Ls[j].t), Fine(L[k][2]))
                                    /\ WLeq(Depth(Ls[j].b), Fine(L[k][2]))}
Between(a, b) == (IF a < b THEN a + 1 ELSE b + 1) .. (IF a < b THEN b - 1 ELSE a - 1)
CoverFails(j) ==
    (IF j = 1 /\ Depth(Ls[j].t) # <<>> THEN {"surface"} ELSE {})
    \cup (IF j > 1 /\ Ls[j].t # Ls[j - 1].b THEN {"gap"} ELSE {})
    \cup (IF j > 1 /\ Ls[j].p # Ls[j - 1].q THEN {"slowness-jumps"} ELSE {})
    \cup (IF Ls[j].t > Ls[j].b THEN {"negative-thickness"} ELSE {})
    \cup (IF j = Len(Ls) /\ ~ WEq(Depth(Ls[j].b), Fine(Radius(L))) THEN {"centre"} ELSE {})
ValueFails(j) ==
    IF Ls[j].t >= Ls[j].b
    THEN IF \/ \E h \in 1..Len(Discs) : WEq(Fine(Discs[h]), Depth(Ls[j].t))
            \/ WNear(Slow(Ls[j].p), Slow(Ls[j].q), WOf(10))        \* rounding
         THEN {} ELSE {"thin-layer"}
    ELSE IF Holding(j) = {} THEN {"spans-boundary"}
    ELSE IF \E k \in Holding(j) : /\ SlownessIs(Slow(Ls[j].p), Depth(Ls[j].t), k, w)
                               /\ SlownessIs(Slow(Ls[j].q), Depth(Ls[j].b), k, w)
         THEN {} ELSE {"slowness-of-velocity"}
Zs == IF w = "P" THEN s.P.zones ELSE s.S.zones
\* These rays do not turn inside of a layer, and P turns nowhere else.
\* (nothing is said about a low velocity zone that begins at the surface)
AtSurface == Zs # <<>> /\ Zs[1].top = 0
SampleFails(j, mn) ==
    (IF ~ AtSurface /\ \E u \in Between(Ls[j].p, Ls[j].q) : u <= mn /\ R.ray[u]
     THEN {"sample-missing-in-" \o w} ELSE {})
    \* (what S samples in a zone only, and what is from a line of the file, is left out)
    \cup (IF Ls[j].q <= Ls[j].p /\ Ls[j].q <= mn /\ ~ R.ray[Ls[j].q] /\ ~ R.inS[Ls[j].q]
             /\ \A k \in Holding(j) : ~ WEq(Depth(Ls[j].b), Fine(L[k][2]))
          THEN {"no-ray-for-" \o w} ELSE {})
\* Both rays turn here: neither end is in a low velocity zone.  Nothing is said about
\* the layer of the velocity model above the top of a zone.
AboveZone(j) == \E k \in Holding(j), h \in 1..Len(Zs) : L[k][2] = Zs[h].top
Turns(j, mn) == Ls[j].p <= mn /\ Ls[j].q <= mn /\ Ls[j].q <= Ls[j].p /\ ~ AboveZone(j)
Prod(a, b) == WMul(a, b)
InterpolationOK(j) ==    \* td, pd: <<before, half way, after>>
    LET t == Ls[j].td  d == Ls[j].pd
        plus == WAdd(WAdd(Prod(t[3], d[2]), Prod(t[2], d[1])), Prod(t[1], d[3]))
        minus == WAdd(WAdd(Prod(t[3], d[1]), Prod(t[1], d[2])), Prod(t[2], d[3]))
        gap == WDist(d[2], d[1])
    IN WLeq(gap, WOf(20)) \/ WNear(plus, minus, WMul(WTimes(2, R.lim.err), gap))
Steep(j) == WLess(R.lim.dp, WDist(Slow(Ls[j].p), Slow(Ls[j].q)))
LimitFails(j, mn) ==
    (IF WLess(WAdd(R.lim.depth, <<2000>>), WSub(Depth(Ls[j].b), Depth(Ls[j].t))) THEN {"too-thick"} ELSE {})
    \cup (IF Steep(j) THEN {"slowness-increment"} ELSE {})
    \cup (IF Ls[j].jump > R.lim.range + 2 /\ Turns(j, mn)
             /\ WLess(WTimes(2, R.lim.dmin), WDist(Slow(Ls[j].p), Slow(Ls[j].q)))
          THEN {"range-increment"} ELSE {})
    \cup (IF Ls[j].td # <<>> /\ Turns(j, mn) /\ ~ InterpolationOK(j) THEN {"interpolation-error"} ELSE {})
LayerFails(j, mn) == IF Ls[j].t > Ls[j].b THEN CoverFails(j)
              ELSE CoverFails(j) \cup ValueFails(j) \cup SampleFails(j, mn) \cup LimitFails(j, mn)
WalkLayers ==
    /\ w \in {"P", "S"} /\ i <= Len(Ls)
    /\ LET fs == LayerFails(i, min)
                 \cup (IF w = "S" /\ ~ Claim(i, min) THEN {"wrong-claim"} ELSE {})
       IN /\ bad' = bad \cup fs
          /\ \A x \in fs : PrintT(<<"AT", rec, w, i, x>>)
    /\ min' = Min3(min, Ls[i].p, Ls[i].q) /\ i' = i + 1
    /\ at' = Down(at, Depth(Ls[i].b))
    /\ UNCHANGED <<rec, f, s, w>>
ToS == /\ w = "P" /\ i > Len(Ls)
       /\ w' = "S" /\ i' = 1 /\ at' = 1 /\ min' = Len(R.U)
       /\ UNCHANGED <<rec, f, s, bad>>
Judge == /\ \/ w = "S" /\ i > Len(Ls)
            \/ w = "done"
         /\ w' = "judged"
         /\ \A x \in bad : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", IF R.made = "yes" THEN "made" ELSE "refused">>)
         /\ UNCHANGED <<rec, f, s, i, at, min, bad>>
TraceSpec == Init /\ [][Read \/ StartS \/ ScanS \/ ToLayers \/ WalkLayers \/ ToS \/ Judge]_vars
==============================================================================
