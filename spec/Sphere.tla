-------------------------------- MODULE Sphere --------------------------------
(***************************************************************************)
(* Great circle distances.  Latitudes and longitudes are whole numbers of  *)
(* half degrees; Table[k + 1] is the sine of k half degrees, k = 0..180,   *)
(* in units of 1 / One.  Numbers with a sign: <<sign, wide>>.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Wide
CONSTANTS Table, One
S(s, w) == <<s, w>>
SNeg(a) == <<-a[1], a[2]>>
SMul(a, b) == <<a[1] * b[1], WMul(a[2], b[2])>>
SAdd(a, b) == IF a[1] * b[1] >= 0 THEN <<IF a[1] # 0 THEN a[1] ELSE b[1], WAdd(a[2], b[2])>>
              ELSE IF WLeq(b[2], a[2]) THEN <<a[1], WSub(a[2], b[2])>>
              ELSE <<b[1], WSub(b[2], a[2])>>
SSub(a, b) == SAdd(a, SNeg(b))
SLeq(a, b) == LET d == SSub(b, a) IN d[1] >= 0 \/ WEq(d[2], <<>>)
SNear(a, b, tol) == WLeq(SSub(a, b)[2], tol)
Sin(k) == LET m == k % 720 IN
          IF m > 360 THEN S(-1, Table[(IF m - 360 > 180 THEN 720 - m ELSE m - 360) + 1])
          ELSE S(1, Table[(IF m > 180 THEN 360 - m ELSE m) + 1])
Cos(k) == Sin(k + 180)
Scale(a) == <<a[1], WMul(a[2], One)>>
\* The cosine of the distance between two points <<latitude, longitude>>, times One^3
CosDist(a, b) ==
    SAdd(Scale(SMul(Sin(a[1]), Sin(b[1]))),
         SMul(SMul(Cos(a[1]), Cos(b[1])), Cos(a[2] - b[2])))
Opposite(a) == <<-a[1], a[2] + 360>>
==============================================================================
