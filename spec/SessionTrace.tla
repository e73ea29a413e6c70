----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* A session of SessionMC as the code under test had it:                   *)
(*  ops   its operations                                                   *)
(*  got   what each of them gave: a number standing for the answer (the    *)
(*        same number for the same answer), 0 for none, -1 for an exception *)
(*        where nothing is asked for                                       *)
(*  mods  for each operation, whether all models and all arguments were    *)
(*        as they had been in the beginning afterwards                     *)
(* Ref: question, as a number -> the answer it had as the first question   *)
(* ever, in a process of its own (where pierce points and paths asked from *)
(* arrivals are kinds of question, too).                                   *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
Ref == Data.ref
VARIABLES rec, k, tools
vars == <<rec, k, tools>>
R == Recs[rec]
Init == \E r \in 1..Len(Recs) : rec = r /\ k = 1 /\ tools = <<>>
Fail(x) == PrintT(<<"FAIL", rec, x>>)
KindNo(kind) == CASE kind = "time" -> 0 [] kind = "pierce" -> 1 [] kind = "path" -> 2
                   [] kind = "later pierce" -> 3 [] kind = "later path" -> 4
Later(kind) == IF kind = "pierce" THEN "later pierce" ELSE "later path"
Sizes == Data.sizes     \* how many models, depths, distances, name lists, boundaries
No(q) == ((((KindNo(q[1]) * Sizes[1] + q[2]) * Sizes[2] + q[3]) * Sizes[3] + q[4])
           * Sizes[4] + q[5]) * Sizes[5] + q[6] + 1
First(q) == Ref[No(q)]
Op == R.ops[k]
\* Which question is answered by operation j
RECURSIVE ToolsAt(_)
ToolsAt(j) == IF j = 0 THEN <<>>
              ELSE LET o == R.ops[j]  ts == ToolsAt(j - 1) IN
                   CASE o[1] = "new" -> Append(ts, New(o[2], o[3], o[4], o[5], o[6]))
                     [] o[1] = "set" -> [ts EXCEPT ![o[2]] = Set(@, o[3], o[4])]
                     [] o[1] = "run" -> [ts EXCEPT ![o[2]] = Ran(@)]
                     [] OTHER -> ts
Asked(j) == LET o == R.ops[j] IN
            IF o[1] = "run" THEN Question(ToolsAt(j)[o[2]])
            ELSE <<o[2], o[3], o[4], o[5], o[6], 0>>
Want == CASE Op[1] = "ask" -> First(Asked(k))
          [] Op[1] = "show" -> 0
          [] Op[1] = "new" -> 0
          [] Op[1] = "set" -> 0
          [] Op[1] = "run" -> First(Question(tools[Op[2]]))
          [] Op[1] = "later" -> First([Asked(Op[2]) EXCEPT ![1] = Later(Op[3])])
          [] Op[1] = "correct" -> Data.corrected[Op[2] * Sizes[2] + Op[3] + 1]
Move == /\ k <= Len(R.ops)
        /\ IF R.got[k] = Want \/ R.got[k] = -1 THEN TRUE ELSE Fail("answer")
        /\ IF R.got[k] # -1 THEN TRUE ELSE Fail("raised")
        /\ IF R.mods[k] = 1 THEN TRUE ELSE Fail("changed")
        /\ tools' = CASE Op[1] = "new" -> Append(tools, New(Op[2], Op[3], Op[4], Op[5], Op[6]))
                      [] Op[1] = "set" -> [tools EXCEPT ![Op[2]] = Set(@, Op[3], Op[4])]
                      [] Op[1] = "run" -> [tools EXCEPT ![Op[2]] = Ran(@)]
                      [] OTHER -> tools
        /\ k' = k + 1 /\ UNCHANGED rec
        /\ PrintT(<<"V", Op[1]>>)
TraceSpec == Init /\ [][Move]_vars
==============================================================================
