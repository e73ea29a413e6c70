----------------------------- MODULE BranchesMC ------------------------------
(***************************************************************************)
(* All small stacks of layers, cut into branches in every way: the limits   *)
(* found going down are the smallest slownesses of the whole way.           *)
(***************************************************************************)
EXTENDS Branches, FiniteSets
CONSTANTS MaxLayers, MaxP
VARIABLES ls, bs, s
vars == <<ls, bs, s>>
\* layers: kinds of thickness 0 or 1, slownesses continuous
Stacks(n) == [k : [1..n -> 0..1], v : [0..n -> 0..MaxP]]
RECURSIVE Sum(_, _)
Sum(k, i) == IF i = 0 THEN 0 ELSE k[i] + Sum(k, i - 1)
Made(x, n) == [i \in 1..n |-> [t |-> Sum(x.k, i - 1), b |-> Sum(x.k, i),
                               p |-> x.v[i - 1], q |-> x.v[i]]]
Total(l) == l[Len(l)].b
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                   IN <<m>> \o Asc(S \ {m})
\* every discontinuity ends a branch; so does the centre; other ends are free
Init == \E n \in 1..MaxLayers : \E x \in Stacks(n) :
    /\ x.k[1] = 1 /\ x.k[n] = 1
    /\ ls = Made(x, n)
    /\ \E cut \in SUBSET (1..Total(ls)) :
         /\ Total(ls) \in cut
         /\ \A i \in 1..n : ls[i].t = ls[i].b => ls[i].t \in cut
         /\ bs = Asc(cut)
    /\ s = StartDown(ls)
Next == s.i <= Len(ls) /\ s' = Descend(s, ls, bs) /\ UNCHANGED <<ls, bs>>
Spec == Init /\ [][Next]_vars
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Values(I) == UNION {{ls[i].p, ls[i].q} : i \in I}
All == 1..Len(ls)
Top(j) == IF j = 1 THEN 0 ELSE bs[j - 1]
Through(d) == Values({i \in All : ls[i].b <= d}) \cup {ls[i].p : i \in {i \in All : ls[i].t <= d}}
Before(d) == Values({i \in All : ls[i].t < d /\ ls[i].b <= d})
Right == \A j \in 1..Len(s.got) :
    /\ s.got[j].max = MinOf(Through(Top(j)) \cup {ls[1].p})
    /\ s.got[j].min = MinOf(Through(bs[j]))
    /\ s.got[j].turn = MinOf(Before(bs[j]))
Complete == s.i > Len(ls) => Len(s.got) = Len(bs)
Ordered == \A j \in 1..Len(s.got) : s.got[j].max >= s.got[j].turn /\ s.got[j].turn >= s.got[j].min
==============================================================================
