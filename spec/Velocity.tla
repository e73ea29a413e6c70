------------------------------ MODULE Velocity -------------------------------
(***************************************************************************)
(* What a velocity file says.                                              *)
(*                                                                         *)
(* A file is two lines of heading and a sequence of lines; a line is       *)
(* [cols |-> what stands in its columns before any comment, as             *)
(* <<number>>, or <<>> if it is no number].  Numbers are in ten-thousandths.   *)
(* The reader is a machine that takes one line per step.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* --- the reader ------------------------------------------------------------
NoRow == [d |-> -1, p |-> 0, s |-> 0, r |-> 0]
StartFile == [at |-> 1, row |-> NoRow, layers |-> <<>>, st |-> "reading"]
Good(l) == Len(l) = 4 /\ \A k \in 1..4 : Len(l[k]) = 1
Row(l) == [d |-> l[1][1], p |-> l[2][1], s |-> l[3][1], r |-> l[4][1]]
\* One line.  A line that is empty (but for a comment) is not specified: it may
\* be skipped or refused.
ReadLine(f, l) ==
    IF l = <<>> THEN [f EXCEPT !.st = "unspecified"]
    ELSE IF ~ Good(l) THEN [f EXCEPT !.st = "refused"]
    ELSE IF Row(l).s > Row(l).p THEN [f EXCEPT !.st = "refused"]
    ELSE LET r == Row(l)  q == f.row
         IN [f EXCEPT !.at = @ + 1, !.row = r,
               !.layers = IF q = NoRow \/ q.d = r.d THEN @
                          ELSE Append(@, <<q.d, r.d, q.p, r.p, q.s, r.s, q.r, r.r>>)]

\* --- the layers read: <<top, bottom, Ptop, Pbot, Stop, Sbot, Dtop, Dbot>> ----
Abs(x) == IF x < 0 THEN -x ELSE x
Radius(L) == L[Len(L)][2]
Jump(L, k) == L[k][4] # L[k + 1][3] \/ L[k][6] # L[k + 1][5]
\* Discontinuities, top and bottom included.
Jumps(L) == {k \in 1..Len(L) - 1 : Jump(L, k)}
Min3(a, b, c) == LET m == IF a < b THEN a ELSE b IN IF m < c THEN m ELSE c
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o Ascending(S \ {m})
Discons(L) == <<L[1][1]>> \o [i \in 1..Cardinality(Jumps(L)) |-> L[Ascending(Jumps(L))[i]][2]]
              \o <<Radius(L)>>
\* The member of S (layer numbers) whose bottom is nearest to depth d and closer
\* than lim, the first of them; 0 if none is.
Pick(L, S, d, lim) ==
    LET near == {k \in S : Abs(L[k][2] - d) < lim}
        best == {k \in near : \A j \in near :
                    \/ Abs(L[k][2] - d) < Abs(L[j][2] - d)
                    \/ Abs(L[k][2] - d) = Abs(L[j][2] - d) /\ k <= j}
    IN IF best = {} THEN 0 ELSE CHOOSE k \in best : TRUE
Moho(L) == LET k == Pick(L, Jumps(L), 350000, 650000) IN IF k = 0 THEN 0 ELSE L[k][2]
CMB(L) == LET k == Pick(L, Jumps(L), 28890000, Radius(L))
          IN IF k = 0 THEN Radius(L) ELSE L[k][2]
\* Only from fluid to solid.
IOCB(L) == LET S == {k \in Jumps(L) : L[k][6] = 0 /\ L[k + 1][5] > 0}
               k == Pick(L, S, 51539000, Radius(L) - 1000000)
               d == IF k = 0 THEN Radius(L) ELSE L[k][2]
           IN IF d = CMB(L) THEN Radius(L) ELSE d
==============================================================================
