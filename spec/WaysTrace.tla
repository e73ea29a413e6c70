------------------------------ MODULE WaysTrace ------------------------------
(***************************************************************************)
(* What the code under test answered.  A record is one of                  *)
(*  "ways"   one question asked in many ways: behaviours                   *)
(*           <<kind, form, place, list, type, ops, raised, seen, gave>>    *)
(*           seen: the arrivals before all ops, and after each; gave: the  *)
(*           points the kind itself had (0 for times), and those of each   *)
(*           op.  Equal numbers stand for equal values.                    *)
(*  "coordinates"  the answer when asked with coordinates, and those to    *)
(*           the distance between them, computed in another way, slightly  *)
(*           less and slightly more                                        *)
(*  "more"   the pierce points of an arrival, those when further depths    *)
(*           are to be pierced, and these depths                           *)
(*  "neither"  asking with neither a distance nor all coordinates          *)
(***************************************************************************)
EXTENDS Ways, Wide, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
VARIABLES rec, ph
R == Recs[rec]
Init == \E r \in 1..Len(Recs) : rec = r /\ ph = 0
One(s) == Cardinality(s) <= 1
Ran(s) == {s[i] : i \in 1..Len(s)}
---------------------------------------------------------------- (* one question *)
Good == {b \in Ran(R.b) : b[7] = 0}
Values(w) == UNION {(IF b[1] = w THEN {b[9][1]} ELSE {})
                    \cup {b[9][i + 1] : i \in {j \in 1..Len(b[6]) : Is(b[6][j]) = w}} : b \in Good}
WaysFails ==
  (IF Good = Ran(R.b) THEN {} ELSE {"raised"})
  \cup (IF One(UNION {Ran(b[8]) : b \in Good}) THEN {} ELSE {"arrivals"})
  \cup {w \in {"pierce", "path"} : ~One(Values(w))}
---------------------------------------------------------------- (* coordinates *)
\* An arrival: <<name, time, distance, ray parameter, take-off, incident>>, the latter in
\* wide units so small that the slight differences of distance make up for thousands of them.
Like(a, b) == a[1] = b[1] /\ \A i \in 2..6 : WNear(a[i], b[i], WOf(R.tol[i]))
RECURSIVE Pairs(_, _)
\* Can the arrivals be paired?
Pairs(as, bs) == IF as = <<>> THEN bs = <<>>
                 ELSE \E i \in 1..Len(bs) :
                         /\ Like(as[1], bs[i])
                         /\ \A j \in 1..(i - 1) : ~Like(as[1], bs[j])
                         /\ Pairs(Tail(as), SubSeq(bs, 1, i - 1) \o SubSeq(bs, i + 1, Len(bs)))
Matches(as) == \E n \in 1..Len(R.near) : Pairs(as, R.near[n])
CoordinateFails ==
  (IF R.raised = 0 THEN {} ELSE {"raised"})
  \cup (IF R.raised = 0 => Matches(R.got) THEN {} ELSE {"coordinates"})
---------------------------------------------------------------- (* further depths *)
\* A point: <<depth, time, distance>>
Near(a, b) == \A i \in 1..3 : WNear(a[i], b[i], WOf(R.tol[i]))
\* Is the depth strictly between the points?
Between(d, a, b) == (WLess(a[1], d) /\ WLess(d, b[1])) \/ (WLess(b[1], d) /\ WLess(d, a[1]))
\* The depths passed between two points, in their order
RECURSIVE Sorted(_, _)
Sorted(s, down) == IF s = {} THEN <<>>
    ELSE LET x == CHOOSE y \in s : \A z \in s : IF down THEN WLeq(R.depths[y], R.depths[z])
                                               ELSE WLeq(R.depths[z], R.depths[y])
         IN <<x>> \o Sorted(s \ {x}, down)
Passed(a, b) == Sorted({x \in 1..Len(R.depths) : Between(R.depths[x], a, b)}, WLess(a[1], b[1]))
\* So close to where the ray turns that not both of the sampled rays it lies between reach it
Blurred(x) == R.blurred[x] = 1
RECURSIVE Match(_, _, _)
\* From base point i (just met) on, with the depths ds to be passed before the next base point,
\* and the points of the answer from j on
Match(i, ds, j) ==
  IF ds = <<>>
  THEN IF i = Len(R.base) THEN j = Len(R.more) + 1
       ELSE /\ j <= Len(R.more) /\ Near(R.base[i + 1], R.more[j])
            /\ Match(i + 1, IF i + 1 < Len(R.base) THEN Passed(R.base[i + 1], R.base[i + 2]) ELSE <<>>,
                     j + 1)
  ELSE \/ /\ j <= Len(R.more)
          /\ WNear(R.more[j][1], R.depths[ds[1]], WOf(R.tol[1]))
          /\ \A k \in 2..3 : WLeq(R.base[i][k], WAdd(R.more[j][k], WOf(R.tol[k])))
          /\ \A k \in 2..3 : WLeq(R.more[j][k], WAdd(R.base[i + 1][k], WOf(R.tol[k])))
          /\ Match(i, Tail(ds), j + 1)
Ordered == \A j \in 1..(Len(R.more) - 1) : \A k \in 2..3 : WLeq(R.more[j][k], WAdd(R.more[j + 1][k], WOf(R.tol[k])))
MoreFails ==
  IF R.raised = 1 THEN {"raised"}
  \* Points that only one of the sampled rays next to the arrival has can come and go.
  ELSE IF \E x \in 1..Len(R.depths) : Blurred(x)
  THEN IF /\ R.more # <<>> /\ Near(R.base[1], R.more[1])
          /\ Near(R.base[Len(R.base)], R.more[Len(R.more)]) /\ Ordered
       THEN {} ELSE {"further-depths"}
  ELSE IF /\ R.more # <<>> /\ Near(R.base[1], R.more[1])
          /\ Match(1, IF Len(R.base) > 1 THEN Passed(R.base[1], R.base[2]) ELSE <<>>, 2)
       THEN {} ELSE {"further-depths"}
----------------------------------------------------------------
Fails == CASE R.type = "ways" -> WaysFails
           [] R.type = "coordinates" -> CoordinateFails
           [] R.type = "more" -> MoreFails
           [] R.type = "neither" -> IF R.refused = 1 THEN {} ELSE {"neither"}
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED rec
         /\ \A x \in Fails : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", R.type>>)
TraceSpec == Init /\ [][Judge]_<<rec, ph>>
==============================================================================
