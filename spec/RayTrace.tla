------------------------------ MODULE RayTrace -------------------------------
(***************************************************************************)
(* Compares phases of the code under test with the walk of Ray.tla.        *)
(* A record: [e |-> earth number, legs, out |-> "curve"/"refused"/other,   *)
(*  runs |-> the model's ray parameters it has, as <<first, count>> runs,  *)
(*  d, t |-> its curve (may be left out: empty)].                          *)
(***************************************************************************)
EXTENDS Ray, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
Earths == SeqOf(LAMBDA i : WithLimits(Data.earths[i]), Len(Data.earths))

VARIABLES rec, i, s, judged
vars == <<rec, i, s, judged>>
R == Recs[rec]
E == Earths[R.e]

TraceInit == \E r \in 1..Len(Recs) :
    /\ rec = r /\ i = 1 /\ judged = FALSE
    /\ s = IF Recs[r].legs[1][1] = "kmps" THEN [st |-> "kmps"]
           ELSE Start(Earths[Recs[r].e], Recs[r].legs)
Walk == /\ s.st = "go" /\ i < Len(R.legs)
        /\ s' = Step(E, s, R.legs, i)
        /\ i' = i + 1
        /\ UNCHANGED <<rec, judged>>
Finished == s.st # "go" \/ i = Len(R.legs)

\* ---- which rays -----------------------------------------------------------
Rays == s.st = "go" /\ s.max >= s.min /\ ~ (HasJ(R.legs) /\ ~ E.jok)
First == LastAtLeast(E, s.max)
Last == LastAtLeast(E, s.min)
Zones(w) == IF w = "P" THEN E.zP ELSE E.zS
CutsOf(w) == {z \in {Zones(w)[k] : k \in 1..Len(Zones(w))} : Cuts(s, w, z)}
\* The samples of the curve: <<index, kind>>: "ray"; "top": the ray that grazes
\* the top of zone z of wave w; "run": the far end of a head or diffracted wave.
CutAt(j) == {<<w, z>> \in {"P", "S"} \X (CutsOf("P") \cup CutsOf("S")) :
                z \in CutsOf(w) /\ E.rp[j] = z.p}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                        IN <<x>> \o SetToSeq(S \ {x})
RECURSIVE Build(_, _)
Build(j, cuts) ==
    IF j > Last THEN <<>>
    ELSE LET c == IF cuts THEN SetToSeq(CutAt(j)) ELSE <<>>
         IN [k \in 1..Len(c) |-> [j |-> j, kind |-> "top", w |-> c[k][1],
                                  b |-> c[k][2].b]]
            \o <<[j |-> j, kind |-> "ray", w |-> "", b |-> 0]>>
            \o Build(j + 1, cuts)
Samples ==
    IF First = Last
    THEN <<[j |-> Last, kind |-> "ray", w |-> "", b |-> 0],
           [j |-> Last, kind |-> "run", w |-> "", b |-> 0]>>
    ELSE Build(First, CutsOf("P") \cup CutsOf("S") # {})
RECURSIVE Expand(_)
Expand(runs) == IF runs = <<>> THEN <<>>
                ELSE [k \in 1..runs[1][2] |-> runs[1][1] + k - 1]
                     \o Expand(Tail(runs))
RayFails ==
    (IF R.out \notin {"curve", "refused"} THEN {"raised"} ELSE {})
    \cup (IF R.out = "refused" /\ Rays THEN {"refused"} ELSE {})
    \cup (IF R.out = "curve" /\ s.st # "odd"
          THEN LET got == Expand(R.runs)
                   want == IF Rays THEN Samples ELSE <<>>
               IN IF got = [k \in 1..Len(want) |-> want[k].j] THEN {}
                  ELSE IF want = <<>> THEN {"impossible-rays"}
                  ELSE IF got = <<>> THEN {"no-rays"}
                  ELSE {"rays"}
          ELSE {})
    \cup (IF R.out = "curve" /\ HasJ(R.legs) /\ ~ E.jok THEN {"J-accepted"}
          ELSE {})

\* ---- their times and distances ------------------------------------------------
\* How often the walk passes each branch:
Weights == SeqOf(LAMBDA b : [P |-> Count(s, b - 1, "P"), S |-> Count(s, b - 1, "S")], E.n)
RECURSIVE SumOver(_, _, _, _)
SumOver(tab, W, smp, b) ==
    IF b < 0 THEN 0
    ELSE SumOver(tab, W, smp, b - 1)
         + (IF W[b + 1].P = 0 \/ (smp.kind = "top" /\ smp.w = "P" /\ b >= smp.b)
            THEN 0 ELSE W[b + 1].P * tab.P[b + 1][smp.j])
         + (IF W[b + 1].S = 0 \/ (smp.kind = "top" /\ smp.w = "S" /\ b >= smp.b)
            THEN 0 ELSE W[b + 1].S * tab.S[b + 1][smp.j])
\* 20 or 60 degrees in 1e-7 rad; that times the ray parameter in 1e-4 s/rad
RunKind == IF s.head = <<>> THEN ""
           ELSE IF \E k \in 1..Len(R.legs) : R.legs[k][1] \in DiffLegs
                THEN "diff" ELSE "head"
RunDist == CASE RunKind = "diff" -> 10471976 [] RunKind = "head" -> 3490659
             [] OTHER -> 0
T20(p) == LET a == p \div 1000  b == p % 1000
          IN (34906 * a + (585 * a) \div 1000) \div 100 + (b * 34907) \div 100000
RunTime == CASE RunKind = "diff" -> 3 * T20(E.p4[Last])
             [] RunKind = "head" -> T20(E.p4[Last]) [] OTHER -> 0
Tolerance == 3 + Len(s.seq)
CurveFails ==
    IF R.out # "curve" \/ s.st # "go" \/ ~ Rays \/ R.d = <<>> THEN {}
    ELSE LET S == Samples  W == Weights IN
    IF Len(R.d) # Len(S) \/ Len(R.t) # Len(S) THEN {"curve-length"}
    ELSE (IF \A k \in 1..Len(S) :
              Abs(R.d[k] - SumOver(E.D, W, S[k], E.n - 1)
                  - (IF S[k].kind = "run" THEN RunDist ELSE 0)) <= Tolerance
          THEN {} ELSE {"distances"})
         \cup (IF \A k \in 1..Len(S) :
              Abs(R.t[k] - SumOver(E.T, W, S[k], E.n - 1)
                  - (IF S[k].kind = "run" THEN RunTime ELSE 0)) <= Tolerance
          THEN {} ELSE {"times"})
\* A surface wave: zero and one turn around the Earth, at its velocity.
\* v in 1e-2 km/s; t[2] in 1e-2 s: v * t = circumference in 1e-4 km
Circumference ==      \* 2 pi times the radius
    LET x == E.bottom \div 10  a == x \div 1000  b == x % 1000
    IN 6 * x + 283 * a + (1853 * a) \div 10000 + (283 * b) \div 1000
KmpsFails ==
    IF R.out # "curve" THEN {"surface-wave-refused"}
    ELSE (IF R.d # <<0, 62831853>> THEN {"distances"} ELSE {})
         \cup (IF Len(R.t) # 2 THEN {"times"}
               ELSE IF R.t[1] # 0 \/ Abs(R.t[2] * R.v - Circumference) > R.v + 10
               THEN {"times"} ELSE {})
         \cup (IF R.same THEN {} ELSE {"rays"})

Fails == IF s.st = "kmps" THEN KmpsFails ELSE RayFails \cup CurveFails
Verdict == IF s.st = "kmps" THEN "kmps"
           ELSE IF s.st = "go" /\ ~ Rays THEN "no-rays" ELSE s.st
Judge == /\ ~ judged /\ Finished
         /\ \A f \in Fails : PrintT(<<"FAIL", rec, f>>)
         /\ PrintT(<<"V", Verdict>>)
         /\ judged' = TRUE
         /\ UNCHANGED <<rec, i, s>>
TraceSpec == TraceInit /\ [][Walk \/ Judge]_vars
==============================================================================
