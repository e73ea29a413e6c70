------------------------------- MODULE QueryMC -------------------------------
(***************************************************************************)
(* All queries, up to the numbers in them: a kind, a class of depths, one  *)
(* of distances and up to MaxNames classes of names; and the tool that     *)
(* answers them, name by name.  Flaw: what is wrong with the tool (to see  *)
(* that the invariants notice).                                            *)
(***************************************************************************)
EXTENDS Query
CONSTANTS MaxNames, Emit, Flaw
VARIABLES asked, what, todo, found, state
vars == <<asked, what, todo, found, state>>
Lists == UNION {[1..n -> NameClasses] : n \in 0..MaxNames}
Init == /\ asked \in Lists
        /\ what \in {w \in [1..Len(asked) -> {"rays", "none", "bad", "set"}] :
                       \A i \in 1..Len(asked) : w[i] \in CanBe(asked[i])}
        /\ todo = 1 /\ found = {} /\ state = "working"
\* What name i gives when it is the only one
Alone(i) == CASE what[i] = "rays" -> {<<asked[i], i, "arrivals">>}
              [] what[i] = "set" -> {<<asked[i], i, "arrivals">>, <<asked[i], i, "more arrivals">>}
              [] OTHER -> {}
Work == /\ state = "working" /\ todo <= Len(asked)
        /\ IF Flaw = "gives up" /\ what[todo] = "bad"
           THEN state' = "failed" /\ UNCHANGED found
           ELSE /\ UNCHANGED state
                /\ found' = (IF Flaw = "forgets" /\ what[todo] = "bad" THEN {} ELSE found) \cup Alone(todo)
        /\ todo' = todo + 1 /\ UNCHANGED <<asked, what>>
Done == /\ state = "working" /\ todo > Len(asked) /\ state' = "answered"
        /\ UNCHANGED <<asked, what, todo, found>>
Spec == Init /\ [][Work \/ Done]_vars
Total == state # "failed"
Isolation == state = "answered" => found = UNION {Alone(i) : i \in 1..Len(asked)}
Out == IF Emit /\ todo = 1 /\ state = "working"
          /\ \A i \in 1..Len(asked) : what[i] = CHOOSE w \in CanBe(asked[i]) : TRUE
       THEN PrintT(<<"LIST", asked>>) ELSE TRUE
Classes == IF Emit THEN PrintT(<<"DEPTHS", DepthClasses>>) /\ PrintT(<<"DISTS", DistClasses>>) ELSE TRUE
ASSUME Classes
==============================================================================
