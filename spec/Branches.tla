------------------------------ MODULE Branches -------------------------------
(***************************************************************************)
(* Going down through slowness layers [t, b: depths, p, q: slownesses at    *)
(* top and bottom], branch by branch.  State: i next layer, j branch we are *)
(* in, mn the smallest slowness met so far (both sides of the last          *)
(* boundary), up the smallest met before the bottom boundary was reached    *)
(* (its upper side only), got: the limits of the branches done.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
Less(a, b) == IF a < b THEN a ELSE b
StartDown(ls) == [i |-> 1, j |-> 1, mn |-> ls[1].p, up |-> ls[1].p, max |-> ls[1].p, got |-> <<>>]
\* One layer: bs are the bottoms of the branches.
Descend(s, ls, bs) ==
    LET l == ls[s.i]
        last == s.i = Len(ls)
        thick == l.t < l.b
        m == Less(s.mn, Less(l.p, l.q))
        \* the bottom of the branch has been passed if the next layer is a thick one
        \* that begins there
        closed == l.b = bs[s.j] /\ (last \/ ls[s.i + 1].b > bs[s.j])
        mm == IF last THEN m ELSE Less(m, ls[s.i + 1].p)
        u == IF thick \/ l.t < bs[s.j] THEN m ELSE s.up
    IN IF closed THEN [i |-> s.i + 1, j |-> s.j + 1, mn |-> mm, up |-> mm, max |-> mm,
                       got |-> Append(s.got, [max |-> s.max, turn |-> u, min |-> mm])]
       ELSE [s EXCEPT !.i = @ + 1, !.mn = m, !.up = u]
\* The rays of a model: every slowness smaller than all before, as S goes down.
NewRays(ls, i, mn) ==
    LET l == ls[i] IN (IF l.p < mn THEN <<l.p>> ELSE <<>>)
                      \o (IF l.q < Less(mn, l.p) THEN <<l.q>> ELSE <<>>)
==============================================================================
