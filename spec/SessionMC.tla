------------------------------ MODULE SessionMC ------------------------------
(***************************************************************************)
(* All sessions of MaxOps operations (exhaustively for small numbers of    *)
(* everything, at random for larger ones).  Operations, as written down in *)
(* hist for the harness to do:                                             *)
(*  <<"ask", kind, m, d, x, n>>     by the interface                       *)
(*  <<"show", kind, m, d, x, n>>    the same, printed instead of returned  *)
(*  <<"new", kind, m, d, x, n>>     a tool                                 *)
(*  <<"set", t, field, value>>      change what tool t is to answer        *)
(*  <<"run", t>>                                                           *)
(*  <<"later", k, kind>>            pierce points or path, asked from the  *)
(*                                  arrivals that operation k gave         *)
(*  <<"correct", m, d>>             a depth corrected model                *)
(***************************************************************************)
EXTENDS Session, TLC
CONSTANTS MaxOps, MaxTools, Emit, Picks
VARIABLES hist, tools, pick, ok
vars == <<hist, tools, pick, ok>>
Init == hist = <<>> /\ tools = <<>> /\ pick = "" /\ ok = TRUE
Times(k) == \/ hist[k][1] = "ask" /\ hist[k][2] = "time"
            \/ hist[k][1] = "run" /\ tools[hist[k][2]].kind = "time"
Choose1 == /\ pick = "" /\ Len(hist) < MaxOps
           /\ \E p \in Picks :
              /\ p = "new" => Len(tools) < MaxTools
              /\ p \in {"set", "set2", "run", "run2", "run3"} => tools # <<>>
              /\ p = "later" => \E k \in 1..Len(hist) : Times(k)
              /\ pick' = p
           /\ UNCHANGED <<hist, tools, ok>>
Do(op) == hist' = Append(hist, op) /\ pick' = ""
Values(f) == CASE f = "depth" -> Depths [] f = "dist" -> Dists
               [] f = "names" -> NameLists [] f = "add" -> Adds
Next1 ==
  \/ pick \in {"ask", "show"} /\ \E kind \in Kinds, m \in Models, d \in Depths, x \in Dists, n \in NameLists :
        Do(<<pick, kind, m, d, x, n>>) /\ UNCHANGED <<tools, ok>>
  \/ pick = "new" /\ Len(tools) < MaxTools
        /\ \E kind \in Kinds, m \in Models, d \in Depths, x \in Dists, n \in NameLists :
           Do(<<"new", kind, m, d, x, n>>) /\ tools' = Append(tools, New(kind, m, d, x, n))
           /\ UNCHANGED ok
  \/ pick \in {"set", "set2"} /\ \E t \in 1..Len(tools), f \in Fields :
        /\ Settable(tools[t], f)
        /\ \E v \in Values(f) :
           /\ Set(tools[t], f, v) # tools[t]
           /\ Do(<<"set", t, f, v>>)
           /\ tools' = [tools EXCEPT ![t] = Set(@, f, v)] /\ UNCHANGED ok
  \/ pick \in {"run", "run2", "run3"} /\ \E t \in 1..Len(tools) :
        /\ Do(<<"run", t>>)
        /\ tools' = [tools EXCEPT ![t] = Ran(@)]
        /\ ok' = (RunAnswer(tools[t]) = Fresh(Question(tools[t])))
  \/ pick = "later" /\ \E k \in 1..Len(hist), kind \in {"pierce", "path"} :
        Times(k) /\ Do(<<"later", k, kind>>) /\ UNCHANGED <<tools, ok>>
  \/ pick = "correct" /\ \E m \in Models, d \in Depths :
        Do(<<"correct", m, d>>) /\ UNCHANGED <<tools, ok>>
Spec == Init /\ [][Choose1 \/ Next1]_vars
Stateless == ok
\* What was done does not matter for Stateless, only what tools are there.
View == <<tools, pick, ok>>
Out == IF Emit /\ Len(hist) = MaxOps /\ pick = "" THEN PrintT(<<"HIST", hist>>) ELSE TRUE
==============================================================================
