------------------------------- MODULE PrintMC -------------------------------
(***************************************************************************)
(* All small rays: points with distance, time and depth; the printer goes  *)
(* from point to point.  Printed: <<distance, depth, time>>, in units of   *)
(* 1/12 so that steps are whole numbers.                                   *)
(***************************************************************************)
EXTENDS Print, TLC
CONSTANTS Flaw, Points
Moves == {0, 1, 3} \X {1, 2} \X {0, 1, 2}      \* of distance, of time, the new depth
VARIABLES ray, limit, cut, j, i, out, done
vars == <<ray, limit, cut, j, i, out, done>>
Twelve(p) == [k \in 1..3 |-> 12 * p[k]]
Init == /\ ray = <<<<0, 1, 0>>>> /\ limit \in {1, 2, 5} /\ cut \in {2, 3, 100}
        /\ j = 1 /\ i = 0 /\ out = <<>> /\ done = FALSE
Grow == /\ out = <<>> /\ Len(ray) < Points
        /\ \E m \in Moves : ray' = Append(ray, LET p == ray[Len(ray)]
                                               IN <<p[1] + m[1], m[3], p[3] + m[2]>>)
        /\ UNCHANGED <<limit, cut, j, i, out, done>>
N == IF j = Len(ray) THEN 1
     ELSE IF Flaw = "far" THEN 1 ELSE Steps(ray[j + 1][1] - ray[j][1], limit)
At == IF j = Len(ray) THEN Twelve(ray[j])
      ELSE [k \in 1..3 |-> (12 * ((N - i) * ray[j][k] + i * ray[j + 1][k])) \div N]
\* Beyond the time, go back to it
Cut == LET b == At  a == out[Len(out)] IN
       [k \in 1..3 |-> IF k = 3 THEN 12 * cut
                       ELSE a[k] + ((b[k] - a[k]) * (12 * cut - a[3])) \div (b[3] - a[3])]
Show == /\ ~done /\ Len(ray) = Points
        /\ IF At[3] > 12 * cut
           THEN /\ out' = IF Flaw = "short" \/ out[Len(out)][3] = 12 * cut
                          THEN out ELSE Append(out, Cut)
                /\ done' = TRUE /\ UNCHANGED <<j, i>>
           ELSE /\ out' = Append(out, At) /\ done' = (j = Len(ray))
                /\ IF i + 1 < N THEN i' = i + 1 /\ j' = j ELSE i' = 0 /\ j' = IF j = Len(ray) THEN j ELSE j + 1
        /\ UNCHANGED <<ray, limit, cut>>
Next == Grow \/ Show
Spec == Init /\ [][Next]_vars
End == ray[Len(ray)]
Whole == done => out[Len(out)][3] = 12 * (IF End[3] < cut THEN End[3] ELSE cut)
NoLargeSteps == \A k \in 1..(Len(out) - 1) : out[k + 1][1] - out[k][1] <= 12 * limit
AllPoints == done => \A k \in 1..Len(ray) : ray[k][3] <= cut => \E l \in 1..Len(out) : out[l] = Twelve(ray[k])
Onward == \A k \in 1..(Len(out) - 1) : out[k][1] <= out[k + 1][1] /\ out[k][3] <= out[k + 1][3]
\* The kinds of points: what turns is one or the other, never both
D(k) == ray[k][2]
Kind(f, k) == LET b == IF k = 1 THEN D(k) ELSE D(k - 1)
                  n == IF k = Len(ray) THEN D(k) ELSE D(k + 1)
              IN Shown(f, k = 1, k = Len(ray), FALSE, b < D(k), n < D(k), b > D(k), n > D(k))
Kinds == \A k \in 1..Len(ray) :
    /\ Kind("rev", k) = "yes" <=> (Kind("turn", k) = "yes" \/ Kind("under", k) = "yes")
    /\ ~(Kind("turn", k) = "yes" /\ Kind("under", k) = "yes")
    /\ Kind("all", k) = "yes"
\* Between two turning points lies an underside one (where the depth never stays the same)
Alternate == LET strict == \A k \in 1..(Len(ray) - 1) : D(k) # D(k + 1)
             IN strict => \A a, b \in 1..Len(ray) :
                   a < b /\ Kind("turn", a) = "yes" /\ Kind("turn", b) = "yes"
                   => \E c \in a..b : Kind("under", c) = "yes"
==============================================================================
