----------------------------- MODULE SphereTrace -----------------------------
(***************************************************************************)
(* Distances as the code under test has them.  A record is one of          *)
(*  "grid"  two points (half degrees) and the cosine of the distance       *)
(*          between them, with its sign                                    *)
(*  "laws"  of two points of any coordinates: the distances d (as asked),  *)
(*          back (points exchanged), turned (both longitudes changed by    *)
(*          the same), around (a longitude changed by 360 degrees), mirror *)
(*          (both latitudes of the other sign), opposite (the second point *)
(*          replaced by its antipode), and the differences lat and lon     *)
(*          (its absolute value modulo 360, not larger than 180)           *)
(*  "triangle"  the distances between three points                         *)
(* in wide numbers, unit 1e-9 degrees; tol is 2e-6 degrees.                *)
(***************************************************************************)
EXTENDS Sphere, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
Sines == Data.sin
Unit == Data.one
VARIABLES rec, ph
R == Recs[rec]
Init == \E r \in 1..Len(Recs) : rec = r /\ ph = 0
Tol == WOf(Data.tol)
Half == Data.half                     \* 180 degrees
Eq(x, y) == WNear(x, y, Tol)
Grid == IF R.raised = 1 THEN {"raised"}
        ELSE IF SNear(CosDist(R.a, R.b), Scale(Scale(R.cos)), Data.costol)
             THEN {} ELSE {"great-circle"}
Laws == IF R.raised = 1 THEN {"raised"} ELSE
  (IF WLeq(R.d, Half) THEN {} ELSE {"range"})
  \cup (IF Eq(R.d, R.back) THEN {} ELSE {"symmetry"})
  \cup (IF Eq(R.d, R.turned) THEN {} ELSE {"rotation"})
  \cup (IF Eq(R.d, R.around) THEN {} ELSE {"around"})
  \cup (IF Eq(R.d, R.mirror) THEN {} ELSE {"mirror"})
  \cup (IF Eq(WAdd(R.d, R.opposite), Half) THEN {} ELSE {"opposite"})
  \* the difference of latitudes is the least distance, that of both the largest
  \cup (IF WLeq(R.lat, WAdd(R.d, Tol)) THEN {} ELSE {"closer-than-latitudes"})
  \cup (IF WLeq(R.d, WAdd(WAdd(R.lat, R.lon), Tol)) THEN {} ELSE {"farther-than-both"})
  \cup (IF R.lon = <<>> => Eq(R.d, R.lat) THEN {} ELSE {"meridian"})
  \cup (IF R.equator = 1 => Eq(R.d, R.lon) THEN {} ELSE {"equator"})
Triangle == IF R.raised = 1 THEN {"raised"} ELSE
  (IF /\ WLeq(R.x, WAdd(WAdd(R.y, R.z), Tol))
      /\ WLeq(R.y, WAdd(WAdd(R.x, R.z), Tol))
      /\ WLeq(R.z, WAdd(WAdd(R.x, R.y), Tol)) THEN {} ELSE {"triangle"})
  \cup (IF WLeq(WAdd(R.x, WAdd(R.y, R.z)), WAdd(WAdd(Half, Half), Tol))
        THEN {} ELSE {"around-the-sphere"})
Fails == CASE R.type = "grid" -> Grid [] R.type = "laws" -> Laws [] R.type = "triangle" -> Triangle
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED rec
         /\ \A x \in Fails : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", R.type>>)
TraceSpec == Init /\ [][Judge]_<<rec, ph>>
==============================================================================
