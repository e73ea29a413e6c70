--------------------------- MODULE PhaseNameTrace ----------------------------
(***************************************************************************)
(* Validates what the code under test made of names and lists of names.    *)
(* A record is either                                                      *)
(*   [k |-> "name", n |-> name, err |-> "" or kind of exception, legs]     *)
(*   [k |-> "list", ns |-> list given, err, out |-> names it stands for]   *)
(* For a name the reader is run, step by step, to its end; then its result *)
(* is compared.                                                            *)
(***************************************************************************)
EXTENDS PhaseName, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.TRACE).recs
VARIABLES rec, judged
vars == <<name, pos, legs, status, rec, judged>>

TraceInit == \E r \in 1..Len(Recs) :
    /\ rec = r
    /\ judged = FALSE
    /\ StartReading(IF Recs[r].k = "name" THEN Recs[r].n ELSE "")

R == Recs[rec]
Read == R.k = "name" /\ ReadLeg /\ UNCHANGED <<rec, judged>>

NameFails ==
    (IF R.err \notin {"", "TauModelError"} THEN {"refusal-kind"} ELSE {})
    \cup (IF status = "read" /\ R.err # "" THEN {"refused-good-name"} ELSE {})
    \cup (IF status = "refused" /\ R.err = "" THEN {"accepted-bad-name"}
          ELSE {})
    \cup (IF status = "read" /\ R.err = "" /\ R.legs # legs
          THEN {"legs"} ELSE {})
ListFails ==
    (IF R.err # "" THEN {"list-raised"} ELSE
     LET got == {R.out[i] : i \in 1..Len(R.out)} IN
     (IF got # ListStandsFor(R.ns) THEN {"list-expansion"} ELSE {})
     \cup (IF R.once /\ Cardinality(got) # Len(R.out)
           THEN {"list-duplicates"} ELSE {}))
Fails == IF R.k = "name" THEN NameFails ELSE ListFails

Judge == /\ ~ judged
         /\ R.k = "name" => Done
         /\ \A f \in Fails : PrintT(<<"FAIL", rec, f>>)
         /\ judged' = TRUE
         /\ UNCHANGED <<nameVars, rec>>
TraceSpec == TraceInit /\ [][Read \/ Judge]_vars
=============================================================================
