------------------------------ MODULE Arrivals -------------------------------
(***************************************************************************)
(* Which places of a travel time curve come up at an asked distance.       *)
(*                                                                         *)
(* A distance is a pair <<h, l>>: h units of U and l units of U / M, with  *)
(* 0 <= l < M, so that it can be as fine as a float and still be compared  *)
(* in TLC's integers.  A curve is a sequence of samples with distance d    *)
(* and ray parameter p (a rank).  Circle: once around, in units of U.      *)
(*                                                                         *)
(* The asked distance is folded to r in 0..half the circle; the total      *)
(* distances that end there are the targets                                *)
(*    r, C - r, C + r, 2C - r, 2C + r, ...                                 *)
(* which the machine Next goes through as long as the curve gets there.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS M, Circle
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Add(a, n) == <<a[1] + n, a[2]>>                       \* n whole units
From(n, a) == IF a[2] = 0 THEN <<n - a[1], 0>> ELSE <<n - a[1] - 1, M - a[2]>>
\* |a - b| <= t, in units of U / M
Close(a, b, t) == LET e == a[1] - b[1] IN /\ -8 < e /\ e < 8
                                          /\ LET f == e * M + a[2] - b[2] IN -t <= f /\ f <= t
Half == <<Circle \div 2, 0>>
Fold(q) == LET m == <<q[1] % Circle, q[2]>> IN IF Le(m, Half) THEN m ELSE From(Circle, m)

\* --- the targets ------------------------------------------------------------
First(r) == [n |-> 0, back |-> FALSE, x |-> r]
Next1(t, r) == IF t.back THEN [n |-> t.n + 1, back |-> FALSE, x |-> Add(r, Circle * (t.n + 1))]
               ELSE [n |-> t.n, back |-> TRUE, x |-> From(Circle * (t.n + 1), r)]
\* At half the circle both ways end at the same place after the same distance.
Same(r) == r = Half
Follow(t, r) == IF Same(r) THEN Next1(Next1(t, r), r) ELSE Next1(t, r)

\* --- the places of curve d, p at target x ---------------------------------------
\* Two samples with the same ray parameter are the edges of a shadow zone, unless
\* they are all there is (head, diffracted and surface waves).
Shadow(p, k) == Len(p) > 2 /\ k >= 1 /\ k < Len(p) /\ p[k] = p[k + 1]
At(d, k, x, t) == Close(d[k], x, t)
Between(d, k, x, t) == /\ ~ At(d, k, x, t) /\ ~ At(d, k + 1, x, t)
                       /\ Lt(d[k], x) # Lt(d[k + 1], x)
Sure(d, p, x, t) == {k \in 1..Len(d) - 1 : Between(d, k, x, t) /\ ~ Shadow(p, k)}
Hit(d, x, t) == {k \in 1..Len(d) : At(d, k, x, t)}
Plain(d, p, k, x, t) == /\ ~ Shadow(p, k - 1) /\ ~ Shadow(p, k)
                        /\ k = 1 \/ ~ At(d, k - 1, x, t)
                        /\ k = Len(d) \/ ~ At(d, k + 1, x, t)
Through(d, p, x, t) == {k \in Hit(d, x, t) : /\ 1 < k /\ k < Len(d) /\ Plain(d, p, k, x, t)
                                             /\ Lt(d[k - 1], x) # Lt(d[k + 1], x)}
\* A sample that is hit exactly is one place, also if it is an end of the curve or
\* the curve turns back there.  Exact: the samples known to be hit exactly.
Exactly(d, p, x, t, exact) == {k \in Hit(d, x, t) : k \in exact /\ Plain(d, p, k, x, t)}
                              \ Through(d, p, x, t)
\* How many arrivals: at least, at most.  (A sample that may or may not be hit, as
\* rounding decides, is none, one or two.)
AtLeast(d, p, x, t, exact) == Cardinality(Sure(d, p, x, t)) + Cardinality(Through(d, p, x, t))
                              + Cardinality(Exactly(d, p, x, t, exact))
AtMost(d, p, x, t, exact) ==
    AtLeast(d, p, x, t, exact)
    + 2 * Cardinality(Hit(d, x, t) \ (Through(d, p, x, t) \cup Exactly(d, p, x, t, exact)))
==============================================================================
