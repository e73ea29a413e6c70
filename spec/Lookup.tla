------------------------------- MODULE Lookup --------------------------------
(***************************************************************************)
(* Finding a depth in a sequence of layers <<top, bottom>> that begin where *)
(* the one before ends.  Layers may have no thickness.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Holds(ls, n, d) == ls[n][1] <= d /\ d <= ls[n][2]
Inside(ls, d) == ls # <<>> /\ ls[1][1] <= d /\ d <= ls[Len(ls)][2]

\* The definition: the first and the last layer that holds the depth.
Above(ls, d) == CHOOSE n \in 1..Len(ls) : Holds(ls, n, d) /\ \A m \in 1..n - 1 : ~ Holds(ls, m, d)
Below(ls, d) == CHOOSE n \in 1..Len(ls) : Holds(ls, n, d) /\ \A m \in n + 1..Len(ls) : ~ Holds(ls, m, d)

\* The same, looking at neighbours only (LookupMC).
IsAbove(ls, d, n) == /\ n \in 1..Len(ls) /\ Holds(ls, n, d)
                     /\ (n > 1 => ls[n - 1][2] < d)
IsBelow(ls, d, n) == /\ n \in 1..Len(ls) /\ Holds(ls, n, d)
                     /\ (n < Len(ls) => d < ls[n + 1][1])

\* Layers with thickness: the one that begins at the depth or strictly holds it;
\* the last one holds its end.
IsIn(ls, d, n) == /\ n \in 1..Len(ls) /\ ls[n][1] <= d
                  /\ \/ d < ls[n][2]
                     \/ n = Len(ls) /\ d = ls[n][2]

\* Depth ranges: with their upper end, without their lower end.
InRange(rs, d) == \E k \in 1..Len(rs) : rs[k][1] <= d /\ d < rs[k][2]
\* A zone <<top, bottom, p>> holds the rays that cannot turn in it; the ray that
\* grazes it belongs to it at its top only.
InZone(zs, d, p) == \E k \in 1..Len(zs) : /\ zs[k][1] <= d /\ d <= zs[k][2]
                                          /\ p > zs[k][3] \/ (p = zs[k][3] /\ d = zs[k][1])

(***************************************************************************)
(* Where does a ray turn?  us: slownesses <<top, bottom>> of velocity       *)
(* layers, next: slowness at the top of the layer below each.  The search   *)
(* goes down layer by layer from a to b, [k |-> layer, at |-> "..."].       *)
(***************************************************************************)
Within(u, p) == \/ u[1] <= p /\ p <= u[2]
                \/ u[2] <= p /\ p <= u[1]
Search(s, us, next, b, p) ==
    IF s.k > b THEN [s EXCEPT !.at = "nowhere"]
    ELSE IF Within(us[s.k], p) THEN [s EXCEPT !.at = "inside"]
    ELSE IF next[s.k] # 0 /\ us[s.k][2] >= p /\ p >= next[s.k] THEN [s EXCEPT !.at = "bottom"]
    ELSE [s EXCEPT !.k = @ + 1]
==============================================================================
