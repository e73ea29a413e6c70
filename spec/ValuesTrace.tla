----------------------------- MODULE ValuesTrace -----------------------------
(***************************************************************************)
(* What an arrival of the code under test says about its ray.              *)
(*  e       the Earth (as in Ray.tla), legs of the name, vm its velocities *)
(*          <<depth, P, S>> (wide, 1e-9 km, 1e-9 km/s)                     *)
(*  q, x    asked and total distance (as in ArrivalsTrace), xw the latter  *)
(*          wide (1e-12 degree); mod, deg: what it says as modulo distance *)
(*          and in degrees                                                 *)
(*  seg     <<k, d, t, p, d', t', p'>> the samples of the curve around the *)
(*          arrival (wide; 1e-12 degree, 1e-9 s, 1e-9 s/rad) or <<>>       *)
(*  t, p    time, ray parameter (wide); pd: ray parameter per degree       *)
(*  take, inc   angles: <<below zero?, |sine| (wide, 1e-12), <= 90?>>            *)
(*  h, hw   source depth (1e-5 km; wide) asked for, src that of the arrival*)
(*  names   does it carry the name asked for?  purist: legs of its purist  *)
(*          name                                                           *)
(* A record of kind "list": ranks of the times of a whole answer.          *)
(***************************************************************************)
EXTENDS Ray, Wide, Json, IOUtils, TLC
A == INSTANCE Arrivals WITH M <- 100000000, Circle <- 3600000
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
VARIABLES rec, ph, z
vars == <<rec, ph, z>>
R == Recs[rec]
E == Data.earths[R.e]
V == Data.velocities[E.vm]
Legs == R.legs
\* ---- on the curve -------------------------------------------------------------
Tol == 1000
Asked == LET r == A!Fold(R.q)  x == A!Fold(R.x)
         IN \/ A!Close(r, x, 2 * Tol)
            \/ A!Close(A!From(3600000, r), x, 2 * Tol)
S == R.seg
\* |(y - y1) (d2 - d1) - (x - d1) (y2 - y1)| <= tol (d2 - d1), y between y1 and y2
OnLine(y, y1, y2, tol) ==
    /\ WLeq(y, WAdd(IF WLeq(y1, y2) THEN y2 ELSE y1, tol))
    /\ WLeq(IF WLeq(y1, y2) THEN y1 ELSE y2, WAdd(y, tol))
    /\ WLeq(WDist(WMul(WDist(y, y1), WDist(S[5], S[2])), WMul(WDist(R.xw, S[2]), WDist(y2, y1))),
            WMul(tol, WAdd(WDist(S[5], S[2]), WOf(1))))
Point == WEq(S[2], S[5])                   \* nothing to interpolate
OnCurve(y, y1, y2, tol) == IF Point THEN WNear(y, y1, tol) \/ WNear(y, y2, tol)
                           ELSE OnLine(y, y1, y2, tol)
CurveFails ==
    (IF Asked THEN {} ELSE {"distance-not-asked"})
    \cup (IF R.seg = <<>> THEN {"off-the-curve"}
          ELSE (IF OnCurve(R.t, S[3], S[6], WOf(1000)) THEN {} ELSE {"time-off-the-curve"})
               \cup (IF OnCurve(R.p, S[4], S[7], WOf(1000)) THEN {} ELSE {"ray-parameter-off-the-curve"}))
    \cup (IF A!Close(R.mod, A!Fold(R.x), Tol) THEN {} ELSE {"modulo-distance"})
    \cup (IF \A k \in 1..Len(R.deg) : A!Close(R.deg[k], R.x, Tol) THEN {} ELSE {"distance-in-degrees"})
    \* p per degree is p times pi over 180
    \cup (IF WNear(WMul(R.pd, WOf(1000000000)), WMul(R.p, WOf(17453293)), WAdd(WMul(WOf(100), R.pd), WMul(WOf(1000000), WOf(10000))))
          THEN {} ELSE {"ray-parameter-per-degree"})
\* ---- names -----------------------------------------------------------------------
\* A depth or boundary letter after ^ or v, or a bare depth, becomes the depth of
\* the boundary used.
Named(l) == IF l[1] \in {"^", "v", "d"} THEN <<l[1], "#", E.top[At(E, l) + 1]>> ELSE l
Purist == [k \in 1..Len(Legs) |-> Named(Legs[k])]
SameLeg(a, b) == /\ Len(a) = Len(b) /\ a[1] = b[1]
                 /\ IF Len(a) = 3 THEN Abs(a[3] - b[3]) <= 1 ELSE a = b
NameFails ==
    (IF R.names THEN {} ELSE {"name"})
    \cup (IF Legs[1][1] = "kmps" THEN (IF R.purist = Legs THEN {} ELSE {"purist-name"})
          ELSE IF Len(R.purist) = Len(Purist) /\ \A k \in 1..Len(Purist) : SameLeg(R.purist[k], Purist[k])
          THEN {} ELSE {"purist-name"})
    \cup (IF R.src = R.h THEN {} ELSE {"source-depth"})
\* ---- angles: a walk down the lines of the velocity file to the depth of the source ----
Up == Legs[1][1] \in {"p", "s"}
WaveFor(l) == IF l[1] \in {"p", "P", "Pn", "Pg", "Pb", "Pdiff"} THEN 2 ELSE 3
\* Is line z the upper end of the layer the ray leaves into?
Inside == IF Up THEN WLess(V[z][1], R.hw) /\ WLeq(R.hw, V[z + 1][1])
          ELSE WLeq(V[z][1], R.hw) /\ WLess(R.hw, V[z + 1][1])
Unit == WMul(WOf(1000000), WOf(1000000))
\* sine * r = v * p where v = (v1 (z2 - z) + v2 (z - z1)) / (z2 - z1)
\* r: 1e-9 km; sine: 1e-12; p: 1e-9 s/rad; v: 1e-9 km/s; so v p is in 1e-18 and r sine in 1e-21
Thousand == WOf(1000)
Fits(sine, r, v, dz) ==      \* v: velocity times dz
    LET lhs == WMul(WMul(sine, r), dz)                    \* 1e-30
        rhs == WMul(WMul(R.p, v), Thousand)
        one == WMul(WMul(Unit, r), dz)
        tol == WMul(WMul(WOf(20000), r), dz)              \* 2e-8 of a sine
    IN IF WLeq(rhs, one) THEN WNear(lhs, rhs, tol) ELSE WNear(lhs, one, tol)
Radius(d) == WSub(E.radius, d)
TakeOK == R.take[3] /\ LET a == V[z]  b == V[z + 1]  w == WaveFor(Legs[1]) IN
    /\ R.take[1] = (Up /\ ~ WEq(R.take[2], <<>>))
    /\ Fits(R.take[2], Radius(R.hw),
            WAdd(WMul(a[w], WDist(b[1], R.hw)), WMul(b[w], WDist(R.hw, a[1]))), WDist(b[1], a[1]))
LastLeg == Legs[Len(Legs) - 1]
IncOK == /\ ~ R.inc[1] /\ R.inc[3]
         /\ Fits(R.inc[2], Radius(<<>>), V[1][WaveFor(LastLeg)], WOf(1))
FlatOK == WEq(R.take[2], <<>>) /\ WEq(R.inc[2], <<>>)

Init == \E r \in 1..Len(Recs) : rec = r /\ ph = "look" /\ z = 1
Fail(x) == PrintT(<<"FAIL", rec, x>>)
List == /\ ph = "look" /\ R.kind = "list" /\ ph' = "done" /\ UNCHANGED <<rec, z>>
        /\ IF \A k \in 1..Len(R.times) - 1 : R.times[k] <= R.times[k + 1] THEN TRUE ELSE Fail("unsorted")
        /\ PrintT(<<"V", "list">>)
Look == /\ ph = "look" /\ R.kind = "arrival" /\ UNCHANGED <<rec, z>>
        /\ \A x \in CurveFails \cup NameFails : Fail(x)
        /\ ph' = IF Legs[1][1] = "kmps" THEN "flat" ELSE "angles"
Descend == /\ ph = "angles" /\ ~ Inside /\ z' = z + 1 /\ UNCHANGED <<rec, ph>>
Angles == /\ ph = "angles" /\ Inside /\ ph' = "done" /\ UNCHANGED <<rec, z>>
          /\ IF TakeOK THEN TRUE ELSE Fail("take-off-angle")
          /\ IF IncOK THEN TRUE ELSE Fail("incident-angle")
          /\ PrintT(<<"V", IF Up THEN "upgoing" ELSE "downgoing">>)
Flat == /\ ph = "flat" /\ ph' = "done" /\ UNCHANGED <<rec, z>>
        /\ IF FlatOK THEN TRUE ELSE Fail("take-off-angle")
        /\ PrintT(<<"V", "surface wave">>)
TraceSpec == Init /\ [][List \/ Look \/ Descend \/ Angles \/ Flat]_vars
==============================================================================
