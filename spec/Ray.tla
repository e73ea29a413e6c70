-------------------------------- MODULE Ray ----------------------------------
(***************************************************************************)
(* How a ray travels through a layered Earth, one leg of its phase name at *)
(* a time, and which rays can do so.                                       *)
(*                                                                         *)
(* An Earth is a stack of branches 0..n-1 separated by boundaries;         *)
(* boundary b is the top of branch b.  Per wave type w ("P","S") the       *)
(* record gives the slowness just below its top (lo), the smallest one in  *)
(* its inside (mid), and just above its bottom (up), as order-preserving   *)
(* integers.  From these alone follow the three limits of a boundary:      *)
(*   In(b)    what gets into branch b: the smallest slowness met down to   *)
(*            boundary b, its lower side included                          *)
(*   Turn(b)  what is sent back up in branch b or above: smallest slowness *)
(*            down to the bottom of branch b, upper side                   *)
(*   Thru(b)  what gets out of branch b downwards: both sides (0 in the    *)
(*            last branch, nothing gets out at the centre)                 *)
(*                                                                         *)
(* The walker is a machine; Step performs one leg.  Its state:             *)
(*   st    "go" | "none" (no ray can) | "odd" (the name says nothing       *)
(*         sensible: e.g. an upgoing ray told to go down) | "kmps"         *)
(*   pos   branch it is about to enter,  down  direction,  w  wave type    *)
(*   act   how the last part of the leg ended                              *)
(*   max, min   largest and smallest ray parameter still possible          *)
(*   seq   the branches passed: <<branch, down?, wave>>                    *)
(*   head  boundaries along which it ran                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))

\* --- limits -------------------------------------------------------------
\* Built up with Append, so that TLC keeps the values instead of a formula.
RECURSIVE SeqOf(_, _)
SeqOf(Op(_), k) == IF k = 0 THEN <<>> ELSE Append(SeqOf(Op, k - 1), Op(k))
RECURSIVE InsSeq(_, _, _)
InsSeq(lo, bel, b) ==    \* bel[b] = min(mid, up) of branch b
    IF b = 1 THEN <<lo[1]>>
    ELSE LET r == InsSeq(lo, bel, b - 1)
         IN Append(r, Min3(r[b - 1], bel[b - 1], lo[b]))
WaveLimits(E, l) ==
    LET bel == SeqOf(LAMBDA b : Min2(l.mid[b], l.up[b]), E.n)
        in == InsSeq(l.lo, bel, E.n)
        turn == SeqOf(LAMBDA b : Min2(in[b], bel[b]), E.n)
        thru == SeqOf(LAMBDA b : IF b = E.n THEN E.zero ELSE in[b + 1], E.n)
    IN [in |-> in, turn |-> turn, thru |-> thru]
Limits(E) == [P |-> WaveLimits(E, E.P), S |-> WaveLimits(E, E.S)]
WithLimits(E) == E @@ ("L" :> Limits(E))

\* L = Limits(E) travels along as E.L
In(E, w, b) == E.L[w].in[b + 1]
Turn(E, w, b) == E.L[w].turn[b + 1]
Thru(E, w, b) == E.L[w].thru[b + 1]
Other(w) == IF w = "P" THEN "S" ELSE "P"

\* --- boundaries named in a phase ------------------------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
\* The discontinuity nearest to depth d; the shallower one if two are.
Nearest(E, d) ==
    LET B == {b \in 0..E.n - 1 : ~ E.nodis[b + 1]}
    IN CHOOSE b \in B : \A c \in B :
          \/ Abs(E.top[b + 1] - d) < Abs(E.top[c + 1] - d)
          \/ Abs(E.top[b + 1] - d) = Abs(E.top[c + 1] - d) /\ b <= c
\* A leg is <<kind>> or <<kind, letter or depth>>; kinds: the letters
\* themselves, "^", "v", "d" (a bare depth), "END".
Boundary(E, x) == CASE x = "m" -> E.moho [] x = "c" -> E.cmb
                    [] x = "i" -> E.iocb [] OTHER -> Nearest(E, x)
\* Depths are given as <<kind, "#", depth>> so that values keep one type.
At(E, leg) == IF Len(leg) = 3 THEN Nearest(E, leg[3])
              ELSE Boundary(E, leg[2])

\* --- the walker's moves -----------------------------------------------------
Steps(from, to, down, w) ==
    IF down THEN [i \in 1..Max2(0, to - from + 1) |-> <<from + i - 1, TRUE, w>>]
    ELSE [i \in 1..Max2(0, from - to + 1) |-> <<from - i + 1, FALSE, w>>]

\* Turn somewhere between here and the bottom of branch e.
TurnIn(E, s, e) ==
    [s EXCEPT !.min = Max2(@, Turn(E, s.w, e)), !.act = "turn",
              !.down = FALSE, !.pos = e, !.seq = @ \o Steps(s.pos, e, TRUE, s.w)]
\* Up to boundary k, and back down from it / on through it.
UpReflect(E, s, k) ==
    [s EXCEPT !.max = Min2(@, In(E, s.w, k)), !.act = "reftop",
              !.down = TRUE, !.pos = k, !.seq = @ \o Steps(s.pos, k, FALSE, s.w)]
UpThrough(E, s, k) ==
    [s EXCEPT !.max = Min2(@, In(E, s.w, k)), !.act = "up",
              !.down = FALSE, !.pos = k - 1,
              !.seq = @ \o Steps(s.pos, k, FALSE, s.w)]
\* Down to the bottom of branch e, and back up from it / on through it.
DownReflect(E, s, e) ==
    [s EXCEPT !.max = Min2(@, Turn(E, s.w, e)), !.act = "refbot",
              !.down = FALSE, !.pos = e, !.seq = @ \o Steps(s.pos, e, TRUE, s.w)]
DownThrough(E, s, e) ==
    [s EXCEPT !.max = Min2(@, Thru(E, s.w, e)), !.act = "down",
              !.down = TRUE, !.pos = e + 1,
              !.seq = @ \o Steps(s.pos, e, TRUE, s.w)]
\* Where the last leg ended the wave becomes one of type w: the ray must
\* exist on the other side (of the boundary, or in the other wave type) too.
Convert(E, s, w) ==
    IF s.w = w \/ s.seq = <<>> THEN [s EXCEPT !.w = w]
    ELSE LET e == s.seq[Len(s.seq)][1]
             lim == CASE s.act = "reftop" ->
                           Min2(In(E, s.w, e), In(E, w, e))
                      [] s.act = "refbot" ->
                           Min2(Turn(E, s.w, e), Turn(E, w, e))
                      [] s.act = "up" ->
                           IF e = 0 THEN E.zero
                           ELSE Min2(In(E, s.w, e), Turn(E, w, e - 1))
                      [] s.act = "down" ->
                           Min2(Thru(E, s.w, e), In(E, w, e + 1))
                      [] OTHER -> E.zero
         IN IF s.act = "turn" THEN [s EXCEPT !.st = "odd"]
            ELSE [s EXCEPT !.w = w, !.max = Min2(@, lim)]

None(s) == [s EXCEPT !.st = "none"]
Odd(s) == [s EXCEPT !.st = "odd"]

\* --- legs -------------------------------------------------------------------
Mantle == {"P", "S"}
HeadLegs == {"Pn", "Sn"}
DiffLegs == {"Pdiff", "Sdiff"}
CrustLegs == {"Pg", "Sg"}
Unread == {"Pb", "Sb"}
PLike == {"P", "Pn", "Pdiff", "Pg", "Pb"}
SLike == {"S", "Sn", "Sdiff", "Sg", "Sb"}
Body == PLike \cup SLike
\* A leg that ends at the surface may be followed by:
AfterSurface == Body \cup {"END"}

WaveOf(s, kind) ==
    CASE kind \in {"p", "k", "I"} \cup PLike -> "P"
      [] kind \in {"s", "J"} \cup SLike -> "S"
      [] OTHER -> s.w          \* K keeps the wave type it came with

Start(E, legs) ==
    LET k == legs[1][1]
        w == IF k \in {"s"} \cup SLike THEN "S" ELSE "P"
        \* The ray that leaves the source horizontally.
        top == IF E.src = 0 THEN In(E, w, 0) ELSE Turn(E, w, E.src - 1)
        s == [st |-> "go", pos |-> E.src, down |-> TRUE, w |-> w,
              act |-> "start", max |-> top, min |-> E.zero, seq |-> <<>>,
              head |-> <<>>]
    IN IF k \in Body THEN s
       ELSE IF k \in {"p", "s"}
            THEN IF E.src = 0 THEN None(s)
                 ELSE [s EXCEPT !.pos = E.src - 1, !.down = FALSE]
       ELSE None(s)             \* nothing else can be a first leg

UpLeg(E, s, next) ==            \* p, s: up from here
    CASE next[1] = "^" ->
            IF s.pos >= At(E, next) THEN UpReflect(E, s, At(E, next))
            ELSE None(s)
      [] next[1] = "m" ->
            IF s.pos >= E.moho THEN UpThrough(E, s, E.moho) ELSE None(s)
      [] next[1] \in AfterSurface -> UpReflect(E, s, 0)
      [] next[1] = "d" ->
            IF At(E, next) > s.pos THEN None(s)
            ELSE IF At(E, next) = 0 THEN Odd(s)
            ELSE UpThrough(E, s, At(E, next))
      [] next[1] = "K" -> Odd(s)
      [] OTHER -> None(s)

MantleLeg(E, s, prev, next, nn) ==
    CASE next[1] \in {"P", "S", "Pn", "Sn", "END"} ->
            LET t == IF s.down THEN TurnIn(E, s, E.cmb - 1) ELSE s
            IN UpReflect(E, t, 0)
      [] next[1] = "v" ->
            IF At(E, next) > E.cmb THEN Odd(s)
            ELSE IF ~ s.down THEN
                (IF s.pos > At(E, next) - 1 THEN None(s) ELSE Odd(s))
            ELSE IF s.pos <= At(E, next) - 1
                THEN DownReflect(E, s, At(E, next) - 1) ELSE None(s)
      [] next[1] = "^" ->
            IF At(E, next) >= E.cmb THEN Odd(s)
            ELSE IF s.down THEN
                (IF prev[1] \in {"START", "P", "S", "p", "s", "^"}
                 THEN UpReflect(E, TurnIn(E, s, E.cmb - 1), At(E, next))
                 ELSE Odd(s))
            ELSE IF prev[1] \in {"v", "c", "m", "K"}
                 THEN IF s.pos >= At(E, next)
                      THEN UpReflect(E, s, At(E, next)) ELSE None(s)
                 ELSE Odd(s)
      [] next[1] = "c" ->
            IF s.down THEN DownReflect(E, s, E.cmb - 1) ELSE Odd(s)
      [] next[1] = "K" ->
            IF s.down THEN DownThrough(E, s, E.cmb - 1) ELSE Odd(s)
      [] next[1] \in {"m", "d"} ->
            LET x == IF next[1] = "m" THEN E.moho ELSE At(E, next) IN
            IF next[1] = "d" /\ next[3] >= E.top[E.cmb + 1] THEN None(s)
            ELSE IF x >= E.cmb \/ x = 0 THEN Odd(s)
            ELSE IF ~ s.down THEN
                 IF x > s.pos THEN None(s) ELSE UpThrough(E, s, x)
            ELSE IF nn[1] \in {"p", "s"} THEN
                 UpThrough(E, TurnIn(E, s, E.cmb - 1), x)
            ELSE IF nn[1] \in {"P", "S"} THEN
                 IF x > s.pos THEN DownThrough(E, s, x - 1) ELSE None(s)
            ELSE None(s)
      [] OTHER -> None(s)

\* Along the core-mantle boundary: only the ray that just grazes it, if it
\* can get there.
DiffLeg(E, s, next) ==
    LET g == E[s.w].up[E.cmb] IN        \* slowness just above the core
    IF ~ s.down THEN Odd(s)
    ELSE IF ~ (s.max >= Turn(E, s.w, E.cmb - 1) /\ Turn(E, s.w, E.cmb - 1) >= s.min)
         THEN None(s)
    ELSE IF g # Turn(E, s.w, E.cmb - 1) THEN None(s)
    ELSE IF next[1] \notin AfterSurface THEN Odd(s)
    ELSE LET t == TurnIn(E, s, E.cmb - 1)
         IN UpReflect(E, [t EXCEPT !.max = t.min, !.head = Append(@, Len(t.seq))],
                      0)

\* Along the Moho: the ray whose slowness is that just below it.
HeadLeg(E, s, next) ==
    LET g == E[s.w].lo[E.moho + 1] IN
    IF s.pos >= E.moho THEN None(s)
    ELSE IF ~ s.down THEN Odd(s)
    ELSE IF ~ (s.max >= In(E, s.w, E.moho) /\ In(E, s.w, E.moho) >= s.min)
         THEN None(s)
    ELSE IF g # In(E, s.w, E.moho) THEN None(s)
    ELSE IF next[1] \notin AfterSurface THEN Odd(s)
    ELSE LET t == UpThrough(E, TurnIn(E, s, E.moho), E.moho)
         IN UpReflect(E, [t EXCEPT !.min = t.max,
                                   !.head = Append(@, Len(t.seq))], 0)

CrustLeg(E, s, next) ==
    IF s.pos >= E.moho THEN None(s)
    ELSE IF ~ s.down THEN Odd(s)
    ELSE IF next[1] \notin AfterSurface THEN Odd(s)
    ELSE UpReflect(E, TurnIn(E, s, E.moho - 1), 0)

OuterCoreLeg(E, s, next) ==
    CASE next[1] \in Mantle ->
            LET t == IF s.down THEN TurnIn(E, s, E.iocb - 1) ELSE s
            IN UpThrough(E, t, E.cmb)
      [] next[1] = "K" ->
            LET t == IF s.down THEN TurnIn(E, s, E.iocb - 1) ELSE s
            IN UpReflect(E, t, E.cmb)
      [] next[1] \in {"I", "J"} ->
            IF s.down THEN DownThrough(E, s, E.iocb - 1) ELSE Odd(s)
      [] next[1] = "i" ->
            IF s.down THEN DownReflect(E, s, E.iocb - 1) ELSE Odd(s)
      [] OTHER -> None(s)

InnerCoreLeg(E, s, next) ==
    LET t == TurnIn(E, s, E.n - 1) IN
    IF ~ s.down THEN Odd(s)
    ELSE IF next[1] \in {"I", "J"} THEN UpReflect(E, t, E.iocb)
    ELSE IF next[1] = "K" THEN UpThrough(E, t, E.iocb)
    ELSE Odd(s)

\* One leg.  i: its index in legs (the last of which is END).
\* The legs that only say where the one before ended:
Marks == {"m", "c", "i", "^", "v", "d"}
LegAt(legs, i) == IF i < 1 THEN <<"START">>
                  ELSE IF i > Len(legs) THEN <<"END">> ELSE legs[i]
Step(E, s0, legs, i) ==
    LET cur == legs[i]
        prev == LegAt(legs, i - 1)
        next == LegAt(legs, i + 1)
        nn == LegAt(legs, i + 2)
        s == Convert(E, s0, WaveOf(s0, cur[1]))
    IN IF s0.st # "go" THEN s0
       ELSE IF s.st # "go" THEN s
       ELSE CASE cur[1] \in {"p", "s"} ->
                    IF s.down THEN Odd(s) ELSE UpLeg(E, s, next)
              [] cur[1] \in Mantle ->
                    IF s.pos >= E.cmb THEN Odd(s)
                    ELSE MantleLeg(E, s, prev, next, nn)
              [] cur[1] \in DiffLegs -> DiffLeg(E, s, next)
              [] cur[1] \in HeadLegs -> HeadLeg(E, s, next)
              [] cur[1] \in CrustLegs -> CrustLeg(E, s, next)
              [] cur[1] = "K" ->
                    IF s.pos < E.cmb \/ prev[1] \notin {"P", "S", "K", "I", "J", "i"}
                    THEN Odd(s) ELSE OuterCoreLeg(E, s, next)
              [] cur[1] \in {"I", "J"} ->
                    IF s.pos < E.iocb THEN Odd(s) ELSE InnerCoreLeg(E, s, next)
              [] cur[1] \in Marks ->
                    \* The reflection or conversion was the leg before's; the
                    \* name must go on with a leg.
                    IF next[1] \in Marks \cup {"END"} \/ (i = 1) THEN Odd(s)
                    ELSE s
              [] OTHER -> None(s)          \* Pb, Sb, k

HasJ(legs) == \E i \in 1..Len(legs) : legs[i][1] = "J"

\* --- what a finished walk means -----------------------------------------------
\* Rays: the model's samples E.rp (falling) from the smallest one not below
\* max to the smallest one not below min.
LastAtLeast(E, x) == Cardinality({i \in 1..Len(E.rp) : E.rp[i] >= x})
\* A low velocity zone z = [b |-> boundary at its top, p |-> ray parameter that
\* grazes it] cuts the rays of the walk in two if a leg of that wave type goes
\* down into it from above.
Cuts(s, w, z) ==
    /\ s.max > z.p /\ z.p >= s.min
    /\ \E j \in 2..Len(s.seq) : /\ s.seq[j] = <<z.b, TRUE, w>>
                                /\ s.seq[j - 1] = <<z.b - 1, TRUE, w>>
Count(s, b, w) == Cardinality({j \in 1..Len(s.seq) : s.seq[j][1] = b
                                                      /\ s.seq[j][3] = w})
==============================================================================
