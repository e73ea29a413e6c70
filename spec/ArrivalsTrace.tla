---------------------------- MODULE ArrivalsTrace ----------------------------
(***************************************************************************)
(* Arrivals of the code under test.  A record is the curve of a phase      *)
(*   d  distances <<1e-4 degree, 1e-12 degree>>, p  ray parameters (ranks; *)
(*      falling along the curve)                                           *)
(*   qs queries: q (asked distance without its sign, like d), out          *)
(*      ("ok"/raised), exact (samples hit exactly), got: arrivals          *)
(*      <<h, l, a, b>>: distance h, l; ray parameter between ranks a and b *)
(*      (equal to both if a = b; 0: beyond the curve's)                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
A == INSTANCE Arrivals WITH M <- 100000000, Circle <- 3600000
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, n, t, bad, seen, verdict
vars == <<rec, n, t, bad, seen, verdict>>
R == Recs[rec]
Q == R.qs[n]
Tol == 1000                                            \* 1e-9 degree
Radius(q) == A!Fold(q)
StartOf(r, k) == IF k > Len(Recs[r].qs) THEN [n |-> 0, back |-> FALSE, x |-> <<0, 0>>]
                 ELSE A!First(Radius(Recs[r].qs[k].q))
Init == \E r \in 1..Len(Recs) : rec = r /\ n = 1 /\ t = StartOf(r, 1) /\ bad = {} /\ seen = {} /\ verdict = FALSE
Got == Q.got
AtX(i) == A!Close(<<Got[i][1], Got[i][2]>>, t.x, 10 * Tol)
Here == {i \in 1..Len(Got) : AtX(i)}
Longest == CHOOSE x \in {R.d[k] : k \in 1..Len(R.d)} : \A k \in 1..Len(R.d) : A!Le(R.d[k], x)
Empty == Len(R.d) = 0
Reaches == IF Empty THEN FALSE ELSE A!Le(t.x, Longest) \/ A!Close(t.x, Longest, Tol)
Exact == IF t.n = 0 /\ ~ t.back THEN {Q.exact[k] : k \in 1..Len(Q.exact)} ELSE {}
Sure == A!Sure(R.d, R.p, t.x, Tol)
\* ray parameters fall along the curve
InSeg(i, k) == Got[i][4] <= R.p[k] /\ Got[i][3] >= R.p[k + 1]
Twice == Radius(Q.q) = <<0, 0>> /\ t.n + (IF t.back THEN 1 ELSE 0) > 0
\* at multiples of the circle both ways around have the same targets: judge once
Skip == Radius(Q.q) = <<0, 0>> /\ t.n > 0 /\ ~ t.back
Target ==
    /\ n <= Len(R.qs) /\ Q.out = "ok" /\ Reaches
    /\ LET lo == A!AtLeast(R.d, R.p, t.x, Tol, Exact)
           hi == A!AtMost(R.d, R.p, t.x, Tol, Exact)
           c == Cardinality(Here)
       IN bad' = bad
            \cup (IF Skip THEN {} ELSE
                  (IF c < lo THEN {<<n, "missed">>} ELSE {})
                  \cup (IF c > (IF Twice THEN 2 * hi ELSE hi)
                        THEN {<<n, IF hi = 0 THEN "invented" ELSE "twice">>} ELSE {})
                  \cup (IF \A k \in Sure : \E i \in Here : InSeg(i, k) THEN {} ELSE {<<n, "missed">>}))
    /\ seen' = seen \cup Here
    /\ t' = A!Follow(t, Radius(Q.q))
    /\ UNCHANGED <<rec, n, verdict>>
NextQuery ==
    /\ n <= Len(R.qs) /\ (IF Q.out = "ok" THEN ~ Reaches ELSE TRUE)
    /\ bad' = bad \cup (IF Q.out # "ok" THEN {<<n, "raised">>} ELSE {})
                  \cup (IF seen # 1..Len(Got) THEN {<<n, "invented">>} ELSE {})
    /\ seen' = {} /\ n' = n + 1 /\ t' = StartOf(rec, n + 1)
    /\ UNCHANGED <<rec, verdict>>
Judge == /\ n > Len(R.qs) /\ ~ verdict /\ verdict' = TRUE
         /\ \A x \in bad : PrintT(<<"FAIL", rec, x[2]>>) /\ PrintT(<<"AT", rec, x[1], x[2]>>)
         /\ PrintT(<<"V", IF Empty THEN "no curve" ELSE IF Len(R.d) = 2 THEN "two samples"
                          ELSE IF \E k \in 1..Len(R.p) : A!Shadow(R.p, k) THEN "shadow zone" ELSE "curve">>)
         /\ UNCHANGED <<rec, n, t, bad, seen>>
TraceSpec == Init /\ [][Target \/ NextQuery \/ Judge]_vars
==============================================================================
