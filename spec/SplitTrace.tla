----------------------------- MODULE SplitTrace ------------------------------
(***************************************************************************)
(* One split of a model by the code under test, one wave type.              *)
(*  out      "ok" or "refused"                                              *)
(*  h        the depth; all depths and slownesses are ranks, D and U their  *)
(*           values (wide, 1e-9 km; 1e-9 s/rad)                             *)
(*  old, new: [layers: <<[t, b, p, q]>>, br: branches [top, bot, max, turn, *)
(*           min, T, D, tau (per ray; wide, 1 added; 1e-9 s, 1e-12 rad)],    *)
(*           rays, src: source depth, srcTop: top of its branch, nodis,      *)
(*           marks: <<depth, top of its branch>> for Moho, CMB, IOCB]       *)
(*  lt       per new layer, as in BranchesTrace                             *)
(*  other    slownesses at h in the other wave type (after)                 *)
(*  same     does the split model look as it did before?                    *)
(*  stale    has an earlier split moved a sample (by up to 1e-6 km)?         *)
(*  first    was this a source depth set on the loaded model?               *)
(***************************************************************************)
EXTENDS Branches, Wide, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, ph, a, b, moved, s, j, first, bad
vars == <<rec, ph, a, b, moved, s, j, first, bad>>
R == Recs[rec]
O == R.old
N == R.new
Init == \E r \in 1..Len(Recs) : /\ rec = r /\ ph = "tables" /\ a = 1 /\ b = 1 /\ moved = FALSE
                                /\ s = [i |-> 0] /\ j = 1 /\ first = <<1>> /\ bad = {}
\* ---- which branches ------------------------------------------------------------
OnBoundary == \E k \in 1..Len(O.br) : O.br[k].top = R.h \/ O.br[k].bot = R.h
\* the branch of the old model that is cut (0: none)
CutAt == IF OnBoundary THEN 0 ELSE CHOOSE k \in 1..Len(O.br) : O.br[k].top < R.h /\ R.h < O.br[k].bot
\* the old branch that new branch k is, or is a part of
From(k) == IF CutAt = 0 \/ k <= CutAt THEN k ELSE k - 1
Part(k) == CutAt # 0 /\ (k = CutAt \/ k = CutAt + 1)
WantBranches == Len(O.br) + (IF CutAt = 0 THEN 0 ELSE 1)
DepthsOK == /\ Len(N.br) = WantBranches
            /\ \A k \in 1..Len(N.br) :
                 /\ N.br[k].top = (IF CutAt # 0 /\ k = CutAt + 1 THEN R.h ELSE O.br[From(k)].top)
                 /\ N.br[k].bot = (IF CutAt # 0 /\ k = CutAt THEN R.h ELSE O.br[From(k)].bot)
TableFails ==
    (IF DepthsOK THEN {} ELSE {"branches"})
    \cup (IF N.rays = O.rays THEN {} ELSE {"ray-parameters"})
    \cup (IF R.same THEN {} ELSE {"split-model-changed"})
    \cup (IF R.first /\ N.src # R.h THEN {"source-depth"} ELSE {})
    \cup (IF ~ R.first /\ N.src # O.src THEN {"source-depth"} ELSE {})
    \cup (IF N.srcTop = N.src THEN {} ELSE {"source-branch"})
    \cup (IF N.nodis = (IF CutAt = 0 THEN O.nodis ELSE O.nodis \o <<R.h>>) THEN {} ELSE {"new-discontinuity"})
    \cup (IF \A k \in 1..Len(N.marks) : N.marks[k] = <<O.marks[k][1], O.marks[k][1]>> THEN {} ELSE {"moho-cmb-iocb"})
Tables == /\ ph = "tables"
          /\ IF R.out # "ok" THEN bad' = {"refused"} /\ ph' = "done"
             ELSE bad' = TableFails /\ ph' = IF DepthsOK /\ N.rays = O.rays THEN "walk" ELSE "done"
          /\ UNCHANGED <<rec, a, b, moved, s, j, first>>
\* ---- the new layers refine the old ones --------------------------------------------
NL == N.layers[b]
OL == O.layers[a]
Thousandth == WOf(1000)                                            \* 1e-6 km
MovedTo(d) == d # R.h /\ NL.b = R.h /\ WNear(R.D[d], R.D[R.h], Thousandth)
Starts == IF b = 1 THEN NL.t = 1 /\ NL.p = O.layers[1].p
          ELSE NL.t = N.layers[b - 1].b /\ NL.p = N.layers[b - 1].q
AtH(q) == \/ \E k \in 1..Len(R.other) : R.other[k] = q
Whole == NL.q = OL.q /\ (NL.b = OL.b \/ MovedTo(OL.b))
\* a new end inside of the old layer: the depth asked for, or where the slowness of
\* the other wave type at that depth is met
Inner == /\ OL.t <= NL.b /\ NL.b <= OL.b
         /\ (OL.p <= NL.q /\ NL.q <= OL.q) \/ (OL.q <= NL.q /\ NL.q <= OL.p)
         /\ NL.b = R.h \/ AtH(NL.q)
\* where the end of a branch would have moved: a thin layer between the two
Thin == /\ NL.p = NL.q /\ NL.t # NL.b /\ WNear(R.D[NL.t], R.D[NL.b], Thousandth)
        /\ \E k \in 1..Len(O.br) : O.br[k].bot \in {NL.t, NL.b}
        /\ R.h \in {NL.t, NL.b}
Walk == /\ ph = "walk" /\ b <= Len(N.layers) /\ a <= Len(O.layers)
        /\ bad' = bad \cup (IF Starts THEN {} ELSE {"gap"})
                      \cup (IF NL.t <= NL.b THEN {} ELSE {"negative-thickness"})
                      \cup (IF Whole \/ Inner \/ Thin THEN {} ELSE {"layers-changed"})
        /\ moved' = (moved \/ (Thin /\ ~ Whole) \/ (Whole /\ NL.b # OL.b))
        /\ a' = IF Whole THEN a + 1 ELSE a
        /\ b' = b + 1
        /\ UNCHANGED <<rec, ph, s, j, first>>
EndWalk == /\ ph = "walk" /\ (b > Len(N.layers) \/ a > Len(O.layers))
           /\ bad' = bad \cup (IF b > Len(N.layers) /\ a > Len(O.layers) THEN {} ELSE {"layers-changed"})
           /\ s' = StartDown(N.layers)
           /\ ph' = IF bad' = {} THEN "down" ELSE "done"
           /\ UNCHANGED <<rec, a, b, moved, j, first>>
\* ---- limits --------------------------------------------------------------------------
Bots == [k \in 1..Len(N.br) |-> N.br[k].bot]
Down == /\ ph = "down" /\ s.i <= Len(N.layers) /\ s.j <= Len(N.br)
        /\ s' = Descend(s, N.layers, Bots)
        /\ first' = IF s'.j > s.j THEN Append(first, s'.i) ELSE first
        /\ UNCHANGED <<rec, ph, a, b, moved, j, bad>>
LimitOK(k) ==
    LET n == N.br[k]  o == O.br[From(k)] IN
    IF ~ Part(k) THEN n.max = o.max /\ n.turn = o.turn /\ n.min = o.min
    ELSE IF k = CutAt THEN n.max = o.max /\ (moved \/ (n.turn = s.got[k].turn /\ n.min = s.got[k].min))
    ELSE n.turn = o.turn /\ n.min = o.min /\ n.max = N.br[CutAt].min
EndDown == /\ ph = "down" /\ (s.i > Len(N.layers) \/ s.j > Len(N.br))
           /\ bad' = bad \cup
                (IF Len(s.got) # Len(N.br) THEN {"layers-and-branches"}
                 ELSE IF \A k \in 1..Len(N.br) : LimitOK(k) THEN {} ELSE {"ray-parameter-limits"})
           /\ ph' = IF Len(s.got) = Len(N.br) THEN "rays" ELSE "done"
           /\ UNCHANGED <<rec, a, b, moved, s, j, first>>
\* ---- times, distances, tau ----------------------------------------------------------------
Lo == first[j]  Hi == first[j + 1] - 1
RECURSIVE SumOf(_, _, _, _)
SumOf(k, i, c, acc) ==
    IF i > Hi THEN acc
    ELSE LET l == N.layers[i]
         IN IF N.rays[k] > Less(l.p, l.q) THEN acc
            ELSE LET e == R.lt[i] IN SumOf(k, i + 1, c, IF e = <<>> THEN acc ELSE WAdd(acc, e[2][k - e[1] + 1][c]))
One(c) == IF c = 2 THEN WMul(WOf(1000000), WOf(1000000)) ELSE WOf(1000000000)
Val(x, k, c) == CASE c = 1 -> x.T[k] [] c = 2 -> x.D[k] [] OTHER -> x.tau[k]
Tol(c) == IF c = 2 THEN WOf(20000) ELSE WOf(20)
\* N.br[j].dif: largest differences to the old branches j and j - 1 (1e-9 s, 1e-12 rad)
SameVal == N.br[j].dif[IF From(j) = j THEN 1 ELSE 2] <= 2
SumVal(k, c) == WNear(WAdd(Val(N.br[CutAt], k, c), Val(N.br[CutAt + 1], k, c)),
                      WAdd(Val(O.br[CutAt], k, c), One(c)), Tol(c))
LayVal(k, c) == IF N.rays[k] > N.br[j].max THEN WNear(Val(N.br[j], k, c), One(c), Tol(c))
                ELSE WNear(Val(N.br[j], k, c), WAdd(SumOf(k, Lo, c, <<>>), One(c)), Tol(c))
Rays == 1..Len(N.rays)
Branch == /\ ph = "rays" /\ j <= Len(N.br)
          /\ bad' = bad \cup
               IF ~ Part(j)
               THEN IF SameVal THEN {} ELSE {"other-branch-changed"}
               ELSE (IF j = CutAt /\ ~ \A k \in Rays, c \in 1..3 : SumVal(k, c) THEN {"parts-do-not-add-up"} ELSE {})
                    \cup (IF moved \/ R.stale \/ \A k \in Rays, c \in 1..2 : LayVal(k, c) THEN {} ELSE {"part-not-its-layers"})
          /\ j' = j + 1 /\ UNCHANGED <<rec, ph, a, b, moved, s, first>>
Judge == /\ \/ ph = "rays" /\ j > Len(N.br)
            \/ ph = "done"
         /\ ph' = "judged"
         /\ \A x \in bad : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", IF R.out # "ok" THEN "refused" ELSE IF OnBoundary THEN "on a boundary"
                          ELSE IF moved THEN "sample moved" ELSE "split">>)
         /\ UNCHANGED <<rec, a, b, moved, s, j, first, bad>>
TraceSpec == Init /\ [][Tables \/ Walk \/ EndWalk \/ Down \/ EndDown \/ Branch \/ Judge]_vars
==============================================================================
