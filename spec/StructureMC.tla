---------------------------- MODULE StructureMC ------------------------------
(***************************************************************************)
(* All small Earths of up to MaxLayers layers: the scan finds the zones    *)
(* that the definition gives, and every Earth is printed to be replayed.   *)
(***************************************************************************)
EXTENDS Structure, TLC
CONSTANTS MaxLayers, Emit
\* Layers 100 km thick over a solid core; velocities at top and bottom.
Speeds == {5000, 7000, 8000}
Thick == 1000000
VARIABLES L, s
Layer(k, pt, pb, fl) ==
    <<(k - 1) * Thick, k * Thick, 10 * pt, 10 * pb,
      IF fl THEN 0 ELSE 5 * pt + 5 * (pt \div 10),
      IF fl THEN 0 ELSE 5 * pb + 5 * (pb \div 10), 30000, 30000>>
Core(k) == <<(k - 1) * Thick, 63710000, 120000, 130000, 65000, 70000, 30000, 30000>>
Init == L = <<>> /\ s = [k |-> 0]
Grow == /\ s.k = 0 /\ Len(L) < MaxLayers
        /\ \E pt, pb \in Speeds, fl \in BOOLEAN :
              /\ fl => Len(L) > 0 /\ pt <= pb
              /\ L' = Append(L, Layer(Len(L) + 1, pt, pb, fl))
        /\ UNCHANGED s
Finish == /\ s.k = 0 /\ Len(L) > 0
          /\ L' = Append(L, Core(Len(L) + 1))
          /\ s' = StartScan(L', TRUE)
Step == /\ s.k > 0 /\ s.k <= Len(L)
        /\ s' = Scan(s, L, TRUE) /\ UNCHANGED L
Next == Grow \/ Finish \/ Step
Spec == Init /\ [][Next]_<<L, s>>

\* --- the definition -----------------------------------------------------------
Tops(w) == [k \in 1..Len(L) |-> Above(L, k, w, TRUE)]
Bots(w) == [k \in 1..Len(L) |-> Below(L, k, w, TRUE)]
\* smallest slowness above the top of layer k (its upper side included)
RECURSIVE Over(_, _)
Over(w, k) == IF k = 1 THEN Tops(w)[1]
              ELSE LET o == Over(w, k - 1)
                       m == IF FLess(Tops(w)[k - 1], o) THEN Tops(w)[k - 1] ELSE o
                   IN IF FLess(Bots(w)[k - 1], m) THEN Bots(w)[k - 1] ELSE m
\* No ray turns just below the top of layer k / just above its bottom.
DeadTop(w, k) == FCmp(Tops(w)[k], Over(w, k)) > 0
                 \/ (FCmp(Tops(w)[k], Over(w, k)) <= 0 /\ FLess(Tops(w)[k], Bots(w)[k]))
DeadBot(w, k) == LET o == Over(w, k)
                     m == IF FLess(Tops(w)[k], o) THEN Tops(w)[k] ELSE o
                 IN FCmp(Bots(w)[k], m) > 0
In(zs, k, atTop) ==
    \E i \in 1..Len(zs) :
        LET d == IF atTop THEN L[k][1] ELSE L[k][2]
            z == zs[i]
            endsAt == IF z.bot # -1 THEN z.bot ELSE L[z.in][2]
        IN IF atTop THEN z.top <= d /\ (z.in > k \/ (z.in = k /\ z.bot = -1))
           ELSE z.top < d /\ z.in > k
Definition ==
    s.k = Len(L) + 1 =>
      \A w \in {"P", "S"} : LET zs == s[w].zones IN
        /\ s[w].open = <<>>                     \* ends at the centre at the latest
        /\ \A i \in 1..Len(zs) : zs[i].bot = -1 => zs[i].top < L[zs[i].in][2]
        /\ \A i \in 1..Len(zs) - 1 : zs[i].top < zs[i + 1].top
        /\ \A k \in 1..Len(L) :
             /\ (DeadTop(w, k) => In(zs, k, TRUE))
             /\ (DeadBot(w, k) <=> In(zs, k, FALSE))
        \* the ray parameter of a zone grazes its top: the smallest slowness above it
        /\ \A i \in 1..Len(zs) : \E k \in 1..Len(L) :
              /\ L[k][1] = zs[i].top
              /\ FCmp(zs[i].rp, IF FLess(Tops(w)[k], Over(w, k)) THEN Tops(w)[k]
                                ELSE Over(w, k)) = 0
        \* zones and fluids begin at critical depths
        /\ \A i \in 1..Len(zs) : \E j \in 1..Len(s.crit) : s.crit[j] = zs[i].top
        /\ \A i \in 1..Len(s.fluids) : \E j, h \in 1..Len(Crit(s, L)) :
              Crit(s, L)[j] = s.fluids[i][1] /\ Crit(s, L)[h] = s.fluids[i][2]
        /\ \A k \in 1..Len(L) : Fluid(L[k]) <=>
              \E i \in 1..Len(s.fluids) : s.fluids[i][1] <= L[k][1] /\ L[k][2] <= s.fluids[i][2]
Sorted == s.k > 0 => \A j \in 1..Len(s.crit) - 1 : s.crit[j] < s.crit[j + 1]
Out == \/ s.k = 0 \/ s.k <= Len(L) \/ ~ Emit \/ PrintT(<<"EARTH", L>>)
==============================================================================
