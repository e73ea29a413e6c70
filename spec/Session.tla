------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Somebody asks for times, pierce points and paths, in any order, of      *)
(* several loaded models and of tools that keep what they worked out for   *)
(* the next time.  A question is <<kind, model, depth, distance, names,    *)
(* extra boundaries>>, all of them numbers; what it asks for is in the     *)
(* harness.  Depth BadDepth is in no Earth, boundary BadAdd neither.       *)
(*                                                                         *)
(* A tool knows its question (kind, m, d, x, n, a), the model it has       *)
(* corrected last (cd, ca) and the phases it has worked out (ph), each for *)
(* a name list, a depth and boundaries.  What a run answers is put         *)
(* together from these, so that SessionMC can show that such a tool        *)
(* answers like a new one (Stateless), whatever was done before.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Models, Depths, Dists, NameLists, Adds, BadDepth, BadAdd,
          Flaw  \* none, or what a tool forgets to look at (to see Stateless fail)
Kinds == {"time", "pierce", "path"}
Fields == {"depth", "dist", "names", "add"}
Question(t) == <<t.kind, t.m, t.d, t.x, t.n, t.a>>
Refused(q) == q[3] = BadDepth \/ q[6] = BadAdd
\* The answer to a question, put together from phases and distance.
Answer(q, phases) == IF Refused(q) THEN <<"refused">>
                     ELSE <<q[1], q[2], q[4], phases>>
Fresh(q) == Answer(q, {<<q[5], q[3], q[6]>>})
New(kind, m, d, x, n) ==
    [kind |-> kind, m |-> m, d |-> d, x |-> x, n |-> n, a |-> 0,
     cd |-> 0, ca |-> 0, ph |-> {}]
Settable(t, f) == f = "add" => t.kind # "time"
Set(t, f, v) == CASE f = "depth" -> [t EXCEPT !.d = v]
                  [] f = "dist" -> [t EXCEPT !.x = v]
                  [] f = "names" -> [t EXCEPT !.n = v]
                  [] f = "add" -> [t EXCEPT !.a = v]
\* A run that is refused leaves the tool as it was.
Ran(t) == IF Refused(Question(t))
          THEN t
          ELSE LET same == /\ Flaw = "depth" \/ t.cd = t.d
                           /\ Flaw = "boundaries" \/ t.ca = t.a
                   old == IF same THEN {p \in t.ph : p[1] = t.n /\ (Flaw = "depth" \/ p[2] = t.d)
                                                  /\ (Flaw = "boundaries" \/ p[3] = t.a)}
                          ELSE {}
               IN [t EXCEPT !.cd = t.d, !.ca = t.a,
                            !.ph = IF old # {} THEN old ELSE {<<t.n, t.d, t.a>>}]
RunAnswer(t) == Answer(Question(t), Ran(t).ph)
==============================================================================
