----------------------------- MODULE ArrivalsMC ------------------------------
(***************************************************************************)
(* All small curves and distances: the targets are exactly the distances   *)
(* that end at the asked place, in order and once each, and walking along  *)
(* the segments of a curve, skipping a segment that ends at the target     *)
(* unless it is the last one, finds every place once.                      *)
(***************************************************************************)
EXTENDS Arrivals, TLC
CONSTANTS MaxLen, MaxD
VARIABLES d, q, t, got, seg
vars == <<d, q, t, got, seg>>
N == Len(d)
Curves == UNION {[1..n -> 0..MaxD] : n \in 2..MaxLen}
P == [k \in 1..N |-> k]                       \* no shadow zone
D == [k \in 1..N |-> <<d[k], 0>>]
R == Fold(<<q, 0>>)
MaxOf == CHOOSE x \in {d[k] : k \in 1..N} : \A k \in 1..N : d[k] <= x
Init == d \in Curves /\ q \in 0..2 * Circle + 1 /\ t = First(Fold(<<q, 0>>)) /\ got = <<>> /\ seg = 1
X == t.x[1]
\* the search of one target along the curve
Found(k) == /\ d[k] # d[k + 1]
            /\ ~ (X = d[k + 1] /\ k + 1 # N)
            /\ (d[k] - X) * (X - d[k + 1]) >= 0
Search == /\ X <= MaxOf /\ seg < N
          /\ got' = IF Found(seg) THEN Append(got, <<t.x, seg>>) ELSE got
          /\ seg' = seg + 1 /\ UNCHANGED <<d, q, t>>
Forward == /\ X <= MaxOf /\ seg = N
           /\ t' = Follow(t, R) /\ seg' = 1 /\ UNCHANGED <<d, q, got>>
Spec == Init /\ [][Search \/ Forward]_vars
Done == X > MaxOf
\* the places of the curve: a sample, or the inside of a segment
Ends(x) == (x % Circle) = R[1] \/ (Circle - (x % Circle)) % Circle = R[1]
Flat == \E k \in 1..N - 1 : d[k] = d[k + 1]
Twice(x) == R[1] = 0 /\ x > 0                 \* both ways around
Places == {<<x, k, 1>> : x \in {y \in 0..MaxOf : Ends(y)}, k \in 1..N}
NumberOf(x) == Cardinality({k \in 1..N : d[k] = x})
               + Cardinality({k \in 1..N - 1 : (d[k] < x /\ x < d[k + 1]) \/ (d[k] > x /\ x > d[k + 1])})
GotAt(x) == Cardinality({i \in 1..Len(got) : got[i][1] = <<x, 0>>})
Complete == Done /\ ~ Flat =>
    \A x \in 0..MaxOf : GotAt(x) = IF ~ Ends(x) THEN 0 ELSE (IF Twice(x) THEN 2 ELSE 1) * NumberOf(x)
Bounds == ~ Flat => AtLeast(D, P, t.x, 0, 1..N) = NumberOf(X) /\ AtMost(D, P, t.x, 0, 1..N) = NumberOf(X)
InOrder == [][t' # t => Lt(t.x, t'.x) \/ R[1] = 0]_vars
==============================================================================
