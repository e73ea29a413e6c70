-------------------------------- MODULE RayMC --------------------------------
(***************************************************************************)
(* Every phase name up to a number of legs, walked through small Earths:   *)
(* generates the names that are replayed into the code, and checks what    *)
(* the walker promises about every walk.                                   *)
(***************************************************************************)
EXTENDS Ray, TLC
CONSTANTS MaxLegs, Emit

\* An Earth with everything: crust (2 branches), Moho, low velocity zone, two
\* mantle discontinuities, core (2 branches), inner core.  Slownesses are made
\* up, S about twice P.
\*        branch: 0   1    2   3     4    5   6    7   8
MkP == [lo  |-> <<60, 55,  40, 42,   36,  30, 28,  35, 13>>,
        mid |-> <<56, 52,  38, 41,   34,  29, 20,  25,  2>>,
        up  |-> <<56, 50,  38, 41,   32,  29, 20,  15,  1>>]
MkS == [lo  |-> <<110, 98, 75, 79,   66,  55, 51,  34, 31>>,
        mid |-> <<100, 95, 70, 77,   64,  53, 37,  24,  4>>,
        up  |-> <<100, 90, 70, 77,   59,  53, 37,  14,  1>>]
Base(src, split) ==
    [n |-> 9, zero |-> 0, src |-> src, moho |-> 2, cmb |-> 7, iocb |-> 8,
     jok |-> TRUE, P |-> MkP, S |-> MkS,
     top |-> <<0, 15, 35, 80, 220, 410, 660, 2889, 5154>>,
     nodis |-> [b \in 1..9 |-> b \in split],
     rp |-> <<110, 100, 98, 95, 90, 79, 77, 75, 70, 66, 64, 60, 59, 56, 55,
              53, 52, 51, 50, 42, 41, 40, 38, 37, 36, 35, 34, 32, 31, 30, 29,
              28, 25, 24, 20, 15, 14, 13, 4, 2, 1, 0>>]
Earths == <<WithLimits(Base(0, {})), WithLimits(Base(1, {2})),
            WithLimits(Base(5, {6}))>>

Depths == {15, 80, 410, 660}
Tokens == {<<x>> : x \in {"P", "S", "p", "s", "K", "I", "J", "c", "i", "m",
                          "Pn", "Sn", "Pg", "Sg", "Pdiff", "Sdiff", "Pb"}}
          \cup {<<k, x>> : k \in {"^", "v"}, x \in {"m", "c"}}
          \cup {<<k, "#", d>> : k \in {"^", "v", "d"}, d \in Depths}
VARIABLES e, legs, done, s
vars == <<e, legs, done, s>>
E == Earths[e]

Init == /\ e \in 1..Len(Earths)
        /\ \E t \in Tokens : legs = <<t>>
        /\ done = 0
        /\ s = Start(Earths[e], legs)
\* A depth after a depth, or directly after ^ or v, cannot be written down.
CanFollow(t) == ~ (legs[Len(legs)][1] \in {"d", "^", "v"} /\ t[1] = "d")
Ended == legs[Len(legs)] = <<"END">>
\* One more leg is named; the walk follows two legs behind, since a leg may
\* depend on the two after it.
Name == /\ ~ Ended
        /\ s.st = "go"
        /\ \E t \in Tokens \cup {<<"END">>} :
              /\ Len(legs) = MaxLegs => t = <<"END">>
              /\ CanFollow(t)
              /\ legs' = Append(legs, t)
              /\ IF t = <<"END">>
                 THEN /\ done' = Len(legs')
                      /\ LET i == done + 1
                             s1 == IF i < Len(legs') THEN Step(E, s, legs', i) ELSE s
                             s2 == IF i + 1 < Len(legs')
                                   THEN Step(E, s1, legs', i + 1) ELSE s1
                         IN s' = s2
                 ELSE IF Len(legs') >= 3
                 THEN done' = done + 1 /\ s' = Step(E, s, legs', done + 1)
                 ELSE UNCHANGED <<done, s>>
        /\ e' = e
Next == Name
Spec == Init /\ [][Next]_vars

\* ---- promises ----------------------------------------------------------
WellFormed == Ended /\ s.st = "go" /\ s.max >= s.min /\ s.pos = 0
\* A walk is connected: each step goes on from where the last one ended.
Connected ==
    \A j \in 2..Len(s.seq) :
        LET a == s.seq[j - 1]  b == s.seq[j]
        IN CASE a[2] /\ b[2] -> b[1] = a[1] + 1
             [] ~ a[2] /\ ~ b[2] -> b[1] = a[1] - 1
             [] OTHER -> b[1] = a[1]
\* A finished walk ends at the surface.
EndsAtSurface == WellFormed => (s.seq # <<>> /\ s.seq[Len(s.seq)][1] = 0
                                /\ ~ s.seq[Len(s.seq)][2])
StartsAtSource == WellFormed => s.seq[1][1] = IF s.seq[1][2] THEN E.src
                                              ELSE E.src - 1
\* Every ray of a finished walk gets into every branch whose near side it
\* meets at a boundary it passes, and no ray goes through the solid as K etc.
Possible == WellFormed => \A j \in 1..Len(s.seq) :
    LET b == s.seq[j][1] w == s.seq[j][3] IN
    \* a branch passed twice in opposite directions in a row may be missed
    (j > 1 /\ s.seq[j - 1][1] = b /\ s.seq[j - 1][2] = s.seq[j][2]) => FALSE
\* Up and down balance out: the boundary crossed count is symmetric.
Balance == WellFormed => \A b \in 0..E.n - 1 :
    LET dn == Cardinality({j \in 1..Len(s.seq) : s.seq[j][1] = b /\ s.seq[j][2]})
        up == Cardinality({j \in 1..Len(s.seq) : s.seq[j][1] = b /\ ~ s.seq[j][2]})
    IN up - dn = IF b < E.src THEN 1 ELSE 0
\* One ray parameter for head and diffracted waves.
HeadOne == (WellFormed /\ s.head # <<>>) => s.max = s.min
\* The reverse of a finished walk passes the same branches as often.
Inv == Connected /\ EndsAtSurface /\ StartsAtSource /\ Balance /\ HeadOne
Out == IF Emit /\ Ended /\ s.st \in {"go", "none"}
       THEN PrintT(<<"NAME", s.st, legs>>) ELSE TRUE
==============================================================================
