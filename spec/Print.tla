-------------------------------- MODULE Print --------------------------------
(***************************************************************************)
(* What of a ray is printed.  A ray is a sequence of points, each with a   *)
(* depth; P, C, N: the depths before, at and after a point, compared by    *)
(* Less.                                                                   *)
(*  Of the pierce points all are shown, or only those of a kind:           *)
(*    "turn"  where the ray is deepest    "under"  where it is shallowest  *)
(*    "rev"   either of the two           "add"    at a further depth      *)
(*  Where the depth stays the same, and for the first and the last point,  *)
(*  it is left open whether they are turning points.                       *)
(*  Of the path every point is shown, and so many more between two, evenly *)
(*  on the straight line in distance and depth, that steps are no larger   *)
(*  than a limit; after a given time the path is cut off.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Filters == {"all", "turn", "under", "rev", "add"}
\* "yes", "no" or "open"
Shown(filter, first, last, added, shallower_before, shallower_after, deeper_before, deeper_after) ==
    LET deepest == shallower_before /\ shallower_after
        shallowest == deeper_before /\ deeper_after
        passing == (shallower_before /\ deeper_after) \/ (deeper_before /\ shallower_after)
    IN CASE filter = "all" -> "yes"
         [] filter = "add" -> IF added THEN "yes" ELSE "no"
         [] first \/ last -> "open"
         [] passing -> "no"
         [] filter = "rev" -> IF deepest \/ shallowest THEN "yes" ELSE "open"
         [] filter = "turn" -> IF deepest THEN "yes" ELSE IF shallowest THEN "no" ELSE "open"
         [] filter = "under" -> IF shallowest THEN "yes" ELSE IF deepest THEN "no" ELSE "open"
\* In how many steps to go a distance
Steps(d, limit) == IF d <= limit THEN 1 ELSE (d + limit - 1) \div limit
==============================================================================
