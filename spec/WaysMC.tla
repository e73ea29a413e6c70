-------------------------------- MODULE WaysMC --------------------------------
(***************************************************************************)
(* An arrival works out its points when it is asked for them and keeps     *)
(* them; asking again, in whatever order, must give the same.  Values: the *)
(* word for them, or "?" for anything else.                                *)
(***************************************************************************)
EXTENDS Ways
CONSTANTS MaxOps, Emit, Flaw
VARIABLES way, keeps, gave, ops
vars == <<way, keeps, gave, ops>>
Init == /\ way \in Kinds \X Forms \X Places \X Lists \X Types
        /\ keeps = [w \in {"pierce", "path"} |-> IF w \in Fresh(way[1]) THEN w ELSE "nothing"]
        /\ gave = <<>> /\ ops = <<>>
Work(w) == CASE Flaw = "keeps one" /\ \E v \in DOMAIN keeps : keeps[v] # "nothing" ->
                  (CHOOSE v \in DOMAIN keeps : keeps[v] # "nothing")
             [] Flaw = "adds" /\ keeps[w] # "nothing" -> "?"
             [] OTHER -> w
Ask(op) == LET w == Is(op)
               v == IF keeps[w] # "nothing" /\ Flaw # "adds" THEN keeps[w] ELSE Work(w)
           IN /\ Len(ops) < MaxOps
              /\ keeps' = [keeps EXCEPT ![w] = v]
              /\ gave' = Append(gave, v) /\ ops' = Append(ops, op) /\ UNCHANGED way
Next == \E op \in Ops : Ask(op)
Spec == Init /\ [][Next]_vars
Same == /\ \A i \in 1..Len(ops) : gave[i] = Is(ops[i])
        /\ \A w \in DOMAIN keeps : keeps[w] \in {"nothing", w}
Out == (Emit /\ Len(ops) = MaxOps) => PrintT(<<"WAY", way, ops>>)
==============================================================================
