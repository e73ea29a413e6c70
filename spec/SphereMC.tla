------------------------------- MODULE SphereMC -------------------------------
(***************************************************************************)
(* The laws of distances on a sphere, of all triples of points of a grid.  *)
(* The sines are those of IOEnv.SINES.                                     *)
(***************************************************************************)
EXTENDS Sphere, Json, IOUtils, TLC
CONSTANTS StepLat, StepLon, Flaw
T == JsonDeserialize(IOEnv.SINES)
Sines == T.sin
Unit == T.one
Lats == {x \in -180..180 : x % StepLat = 0}
Lons == {x \in 0..719 : x % StepLon = 0}
VARIABLES a, b, c
vars == <<a, b, c>>
Init == /\ a \in Lats \X {0} /\ b = <<>> /\ c = <<>>
Next == \/ /\ b = <<>> /\ b' \in Lats \X Lons /\ UNCHANGED <<a, c>>
        \/ /\ b # <<>> /\ c = <<>> /\ c' \in Lats \X Lons /\ UNCHANGED <<a, b>>
Two == b # <<>> /\ c = <<>>
Spec == Init /\ [][Next]_vars
\* A flawed distance: longitudes counted as if on the equator / sines of latitudes forgotten
D(x, y) == CASE Flaw = "flat" -> CosDist(<<x[1], x[2]>>, <<y[1], 2 * y[2]>>)
             [] Flaw = "north" -> CosDist(<<IF x[1] < 0 THEN -x[1] ELSE x[1], x[2]>>, y)
             [] OTHER -> CosDist(x, y)
One3 == WMul(Unit, WMul(Unit, Unit))
Tol == WMul(WOf(100), WMul(Unit, Unit))
Eq(x, y) == SNear(x, y, Tol)
Small(x) == <<x[1], SubSeq(x[2], T.digits + 1, Len(x[2]))>>    \* about times One
Range == Two => (WLeq(D(a, b)[2], WAdd(One3, Tol)))
Symmetric == Two => (Eq(D(a, b), D(b, a)))
Rotation == Two => (Eq(D(<<a[1], 90>>, <<b[1], b[2] + 90>>), D(a, b)))
Mirror == Two => (Eq(D(<<-a[1], 0>>, <<-b[1], b[2]>>), D(a, b)))
Itself == Eq(D(a, a), <<1, One3>>)
Antipode == Two => (Eq(D(a, Opposite(b)), SNeg(D(a, b))))
Meridian == Two => (b[2] = 0 => Eq(D(a, b), Scale(Scale(Cos(a[1] - b[1])))))
Equator == Two => (a[1] = 0 /\ b[1] = 0 => Eq(D(a, b), Scale(Scale(Cos(b[2])))))
Pole == Two => (a[1] = 180 => Eq(D(a, b), Scale(Scale(Sin(b[1])))))
\* |x - y| <= z and x + y + z <= 360 degrees: 1 + 2 xyz >= x^2 + y^2 + z^2 of their cosines
Triangle == c # <<>> =>
            LET x == Small(D(a, b)) y == Small(D(b, c)) z == Small(D(a, c))
                xyz == SMul(x, SMul(y, z))
                sq(u) == Scale(SMul(u, u))
            IN SLeq(SAdd(sq(x), SAdd(sq(y), sq(z))),
                       SAdd(<<1, WAdd(One3, Tol)>>, SAdd(xyz, xyz)))
==============================================================================
