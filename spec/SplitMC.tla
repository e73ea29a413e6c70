------------------------------- MODULE SplitMC -------------------------------
(***************************************************************************)
(* Cutting a stack of layers (cells 1..N of the Earth, grouped in branches)  *)
(* at depths one after the other: the abstract law of what a source at      *)
(* depth does, and the histories to be replayed into the code.              *)
(* A cut depth is a class of places; the abstract stack has cuts at          *)
(* half-integers too.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxCuts, N, Emit
VARIABLES ends, new, hist
vars == <<ends, new, hist>>
Classes == {"surface", "branch", "branch+", "branch-", "near+", "near-", "close+", "close-",
            "layerP", "layerS", "layerP+", "layerS-", "inside", "fluid", "zone", "inner", "bottom"}
\* abstract: ends of branches (twice the depth), new: those that are no boundary of the model
Init == /\ \E cut \in SUBSET (1..N - 1) : ends = {0, 2 * N} \cup {2 * c : c \in cut}
        /\ new = {} /\ hist = <<>>
Split(h) == IF h \in ends THEN UNCHANGED <<ends, new>>
            ELSE ends' = ends \cup {h} /\ new' = new \cup {h}
Next == /\ Len(hist) < MaxCuts
        /\ \E h \in 0..2 * N - 1 : Split(h) /\ hist' = Append(hist, h)
Spec == Init /\ [][Next]_vars
Tau(a, b) == b - a                                    \* anything additive
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                      IN <<m>> \o Sorted(S \ {m})
RECURSIVE Total(_, _)
Total(f, i) == IF i >= Len(f) THEN 0 ELSE Tau(f[i], f[i + 1]) + Total(f, i + 1)
Conserved == Total(Sorted(ends), 1) = 2 * N
OnBoundary == \A i \in 1..Len(hist) : hist[i] \in ends
OldStay == new \cap {e \in ends : e \notin {hist[i] : i \in 1..Len(hist)}} = {}
\* histories over classes, for the code
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE {Append(w, c) : w \in Words(n - 1), c \in Classes}
ASSUME \A w \in Words(Emit) : PrintT(<<"HIST", w>>)
==============================================================================
