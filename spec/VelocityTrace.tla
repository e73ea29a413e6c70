---------------------------- MODULE VelocityTrace ----------------------------
(***************************************************************************)
(* Files read by the code under test, and depths evaluated by it.          *)
(*  [k |-> "file", lines, ending (is it .tvel?), out |-> "ok"/"refused",   *)
(*   layers, dis, moho, cmb, iocb, radius]                                 *)
(*  [k |-> "eval", f |-> number of a file record, prop |-> "p"/"s"/"d",    *)
(*   up |-> value above asked?, d |-> depth (wide, 1e-6 km),               *)
(*   out |-> "ok"/"refused", v |-> value (wide, 1e-9)]                     *)
(***************************************************************************)
EXTENDS Velocity, Wide, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, f, judged
vars == <<rec, f, judged>>
R == Recs[rec]
TraceInit == \E r \in 1..Len(Recs) : rec = r /\ f = StartFile /\ judged = FALSE
\* An evaluation reads its file again: the specification's layers count.
Lines == IF R.k = "file" THEN R.lines ELSE Recs[R.f].lines
ReadNext == /\ f.st = "reading" /\ f.at <= Len(Lines)
            /\ f' = ReadLine(f, Lines[f.at])
            /\ UNCHANGED <<rec, judged>>
Finished == f.st # "reading" \/ f.at > Len(Lines)

Refuse == f.st = "refused" \/ f.layers = <<>> \/ ~ R.ending
FileFails ==
    IF f.st = "unspecified" /\ R.ending THEN {}
    ELSE IF Refuse THEN
        \* no layers at all: nothing is said
        IF R.out = "ok" /\ (f.st = "refused" \/ ~ R.ending) THEN {"accepted-bad-file"} ELSE {}
    ELSE IF R.out # "ok" THEN {"refused-good-file"}
    ELSE (IF R.layers # f.layers THEN {"layers"} ELSE {})
         \cup (IF R.dis # Discons(f.layers) THEN {"discontinuities"} ELSE {})
         \cup (IF R.radius # Radius(f.layers) THEN {"radius"} ELSE {})
         \cup (IF R.moho # Moho(f.layers) THEN {"moho"} ELSE {})
         \cup (IF R.cmb # CMB(f.layers) THEN {"cmb"} ELSE {})
         \cup (IF R.iocb # IOCB(f.layers) THEN {"iocb"} ELSE {})

\* ---- values -----------------------------------------------------------------
\* Depth in ten-thousandths of a km to units of 1e-6 km:
Fine(n) == WTimes(100, WOf(n))
\* Values in ten-thousandths to 1e-9:
FineV(n) == WTimes(100000, WOf(n))
Inside(l) == IF R.up THEN WLess(Fine(l[1]), R.d) /\ WLeq(R.d, Fine(l[2]))
             ELSE WLeq(Fine(l[1]), R.d) /\ WLess(R.d, Fine(l[2]))
Holders == {k \in 1..Len(f.layers) : Inside(f.layers[k])}
Col == CASE R.prop = "p" -> 3 [] R.prop = "s" -> 5 [] OTHER -> 7
\* v * (bot - top) = vtop * (bot - d) + vbot * (d - top)
Linear(l) ==
    LET thick == Fine(l[2] - l[1])
        lhs == WMul(R.v, thick)
        rhs == WAdd(WMul(FineV(l[Col]), WSub(Fine(l[2]), R.d)),
                    WMul(FineV(l[Col + 1]), WSub(R.d, Fine(l[1]))))
    IN WNear(lhs, rhs, WTimes(3, thick))
EvalFails ==
    IF Holders = {} THEN IF R.out = "ok" THEN {"evaluated-outside"} ELSE {}
    ELSE IF R.out # "ok" THEN {"not-evaluated"}
    ELSE IF Linear(f.layers[CHOOSE k \in Holders : TRUE]) THEN {} ELSE {"value"}

Fails == IF R.k = "file" THEN FileFails ELSE EvalFails
Verdict == IF R.k = "eval" THEN "eval"
           ELSE IF f.st = "unspecified" THEN "unspecified"
           ELSE IF Refuse THEN "refused" ELSE "read"
Judge == /\ ~ judged /\ Finished
         /\ \A x \in Fails : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", Verdict>>)
         /\ judged' = TRUE /\ UNCHANGED <<rec, f>>
TraceSpec == TraceInit /\ [][ReadNext \/ Judge]_vars
==============================================================================
