----------------------------- MODULE Structure -------------------------------
(***************************************************************************)
(* Critical depths, low velocity zones and fluid ranges of a velocity      *)
(* model: a machine that scans its layers from the surface down.           *)
(*                                                                         *)
(* L: layers as Velocity.tla reads them (<<top, bottom, Ptop, Pbot, Stop,  *)
(* Sbot, ..>>, ten-thousandths).  Slowness is a fraction (radius/velocity) *)
(* and compared exactly.  jok: may S waves travel in the inner core?       *)
(***************************************************************************)
EXTENDS Velocity, Wide
Frac(r, v) == [n |-> r, d |-> v]
FCmp(x, y) == WCmp(WMul(WOf(x.n), WOf(y.d)), WMul(WOf(y.n), WOf(x.d)))
FLess(x, y) == FCmp(x, y) < 0

Fluid(l) == l[5] = 0
\* S waves travel as P waves in a fluid, and in the inner core if it has no S.
AsP(L, k, w, jok) == w = "P" \/ Fluid(L[k]) \/ (~ jok /\ L[k][1] >= IOCB(L))
VTop(L, k, w, jok) == IF AsP(L, k, w, jok) THEN L[k][3] ELSE L[k][5]
VBot(L, k, w, jok) == IF AsP(L, k, w, jok) THEN L[k][4] ELSE L[k][6]
Above(L, k, w, jok) == Frac(Radius(L) - L[k][1], VTop(L, k, w, jok))   \* slowness at its top
Below(L, k, w, jok) == Frac(Radius(L) - L[k][2], VBot(L, k, w, jok))   \* and at its bottom

\* --- one wave type: state [min, open, zones] ----------------------------------
\* open: the zone we are in (<<>> if none); a zone is [top, rp, in, bot]:
\* in |-> the layer in which it ends, bot |-> where exactly if that is the top of it.
StartWave(L, w, jok) == [min |-> Above(L, 1, w, jok), open |-> <<>>, zones |-> <<>>]
Open(top, rp) == <<[top |-> top, rp |-> rp, in |-> 0, bot |-> -1]>>
Close(s, k, bot) ==
    [s EXCEPT !.zones = Append(@, [s.open[1] EXCEPT !.in = k, !.bot = bot]),
              !.open = <<>>]
\* Enter layer k at its top, with slowness a there and b at its bottom.
EnterLayer(s0, top, a, b, k) ==
    LET s1 == IF s0.open # <<>> /\ FLess(a, s0.min) THEN Close(s0, k, top) ELSE s0
        s2 == [s1 EXCEPT !.min = IF FLess(a, @) THEN a ELSE @]
    IN IF s2.open = <<>> /\ (FLess(s2.min, a) \/ FLess(a, b))
       THEN [s2 EXCEPT !.open = Open(top, s2.min)] ELSE s2
LeaveLayer(s, b, k) ==
    LET s1 == IF s.open # <<>> /\ FLess(b, s.min) THEN Close(s, k, -1) ELSE s
    IN [s1 EXCEPT !.min = IF FLess(b, @) THEN b ELSE @]
ScanLayer(s, L, k, w, jok) ==
    LeaveLayer(EnterLayer(s, L[k][1], Above(L, k, w, jok), Below(L, k, w, jok), k),
               Below(L, k, w, jok), k)

\* --- the scan -------------------------------------------------------------------
StartScan(L, jok) == [k |-> 1, P |-> StartWave(L, "P", jok), S |-> StartWave(L, "S", jok),
                      crit |-> <<0>>, fluids |-> <<>>]
JumpAt(L, k, w, jok) == FCmp(Below(L, k - 1, w, jok), Above(L, k, w, jok)) # 0
\* -1, 0, 1: does slowness fall, stay, rise in layer k?
Trend(L, k, w, jok) == FCmp(Below(L, k, w, jok), Above(L, k, w, jok))
Reversal(L, k, w, jok) == Trend(L, k - 1, w, jok) * Trend(L, k, w, jok) < 0
Critical(L, k, jok) ==
    k > 1 /\ (\/ \E w \in {"P", "S"} : JumpAt(L, k, w, jok)
              \/ \E w \in {"P", "S"} : Reversal(L, k, w, jok))
Scan(s, L, jok) ==
    LET k == s.k  F == s.fluids  n == Len(F) IN
    [k |-> k + 1,
     P |-> ScanLayer(s.P, L, k, "P", jok), S |-> ScanLayer(s.S, L, k, "S", jok),
     crit |-> IF Critical(L, k, jok) THEN Append(s.crit, L[k][1]) ELSE s.crit,
     fluids |-> IF ~ Fluid(L[k]) THEN F
                ELSE IF k > 1 /\ Fluid(L[k - 1])
                     THEN [F EXCEPT ![n] = <<@[1], L[k][2]>>]
                     ELSE Append(F, <<L[k][1], L[k][2]>>)]
Crit(s, L) == Append(s.crit, Radius(L))
\* Zones that touch: such models are refused by the code.
Touch(zs) == \E i \in 1..Len(zs) - 1 : zs[i].bot # -1 /\ zs[i].bot = zs[i + 1].top
==============================================================================
