------------------------------ MODULE LookupMC -------------------------------
(***************************************************************************)
(* Halving search over all short layer sequences: it ends, finds a layer    *)
(* whenever there is one, and stepping up or down from there arrives at     *)
(* the first and the last layer that holds the depth, which are the ones    *)
(* that IsAbove and IsBelow tell by their neighbours.                       *)
(***************************************************************************)
EXTENDS Lookup, FiniteSets
CONSTANTS MaxLayers, MaxDepth
VARIABLES ls, d, lo, hi, at, way
vars == <<ls, d, lo, hi, at, way>>
Ends(n) == {b \in [1..n -> 0..MaxDepth] : \A i \in 1..n - 1 : b[i] <= b[i + 1]}
Layers(b) == [i \in 1..Len(b) |-> <<IF i = 1 THEN 0 ELSE b[i - 1], b[i]>>]
Init == /\ \E n \in 1..MaxLayers, up \in {"above", "below"} :
            \E b \in Ends(n) : ls = Layers(b) /\ way = up
        /\ d \in -1..MaxDepth + 1
        /\ lo = 1 /\ hi = Len(ls) /\ at = IF Inside(ls, d) THEN 0 ELSE -1
Halve == /\ at = 0
         /\ \E mid \in {(lo + hi) \div 2, (lo + hi + 1) \div 2} :     \* either rounding
              IF ls[mid][1] > d THEN hi' = mid - 1 /\ UNCHANGED <<lo, at>>
              ELSE IF ls[mid][2] < d THEN lo' = mid + 1 /\ UNCHANGED <<hi, at>>
              ELSE at' = mid /\ UNCHANGED <<lo, hi>>
         /\ UNCHANGED <<ls, d, way>>
Slide == /\ at > 0
         /\ \/ way = "above" /\ at > 1 /\ Holds(ls, at - 1, d) /\ at' = at - 1
            \/ way = "below" /\ at < Len(ls) /\ Holds(ls, at + 1, d) /\ at' = at + 1
         /\ UNCHANGED <<ls, d, lo, hi, way>>
Spec == Init /\ [][Halve \/ Slide]_vars /\ WF_vars(Halve \/ Slide)
NotLost == at = 0 => lo <= hi
Found == at > 0 => Holds(ls, at, d)
Stopped == at > 0 /\ ~ ENABLED Slide
Right == Stopped => at = (IF way = "above" THEN Above(ls, d) ELSE Below(ls, d))
Same == at > 0 => /\ IsAbove(ls, d, at) <=> at = Above(ls, d)
                  /\ IsBelow(ls, d, at) <=> at = Below(ls, d)
Thick == (\A i \in 1..Len(ls) : ls[i][1] < ls[i][2]) /\ Inside(ls, d) =>
             Cardinality({n \in 1..Len(ls) : IsIn(ls, d, n)}) = 1
Ends1 == <>(at # 0)
==============================================================================
