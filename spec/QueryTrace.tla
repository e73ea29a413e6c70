------------------------------ MODULE QueryTrace ------------------------------
(***************************************************************************)
(* A query, as the code under test answered it:                            *)
(*  out     "list" or what it raised                                       *)
(*  alone   for each name: <<its class, what it gave when it was the only  *)
(*          one: <<out, arrivals>>>>                                       *)
(*  whole   the arrivals of the whole list                                 *)
(* An arrival is a number (the same one for equal arrivals) into Data.arr: *)
(*   num    are all numbers in it numbers, and finite?                     *)
(*   t, x, p   time, distance, ray parameter (wide; absurdly large if      *)
(*          negative), least the time its distance needs (wide)            *)
(*   free   is it a surface wave, of any velocity?                         *)
(*   stand  has it a larger ray parameter than the first sampled ray that  *)
(*          leaves from the source?                                        *)
(*   pts    are the times and distances of all its points finite and not   *)
(*          negative, and their depths in the Earth?                       *)
(*   name   its phase name, as a number, and n how many of them there were *)
(***************************************************************************)
EXTENDS Query, Wide, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
VARIABLES rec, ph
R == Recs[rec]
A(i) == Data.arr[i]
Ran(s) == {s[i] : i \in 1..Len(s)}
Huge == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
Init == \E r \in 1..Len(Recs) : rec = r /\ ph = 0
Fine(a) == a.num /\ a.pts
Sane(a) == WLess(a.t, Huge) /\ WLess(a.x, Huge) /\ WLess(a.p, Huge)
Fails ==
  (IF R.out = "list" THEN {} ELSE {"raised"})
  \cup (IF \A i \in Ran(R.whole) : A(i).num THEN {} ELSE {"no-number"})
  \cup (IF \A i \in Ran(R.whole) : A(i).pts THEN {} ELSE {"points"})
  \cup (IF \A i \in Ran(R.whole) : A(i).num => Sane(A(i)) THEN {} ELSE {"negative"})
  \cup {IF A(i).stand THEN "too-early-first-sample" ELSE "too-early" :
          i \in {j \in Ran(R.whole) : A(j).num /\ ~A(j).free /\ ~WLeq(A(j).least, A(j).t)}}
  \cup (IF \A k \in 1..Len(R.alone) : R.alone[k][2] = "list" THEN {} ELSE {"raised-alone"})
  \* What one name gives, no other name adds to or takes from.
  \cup (IF R.out = "list" => Ran(R.whole) = UNION {Ran(R.alone[k][3]) : k \in 1..Len(R.alone)}
        THEN {} ELSE {"names-not-independent"})
  \* A name that cannot be one gives nothing.
  \cup (IF \A k \in 1..Len(R.alone) :
             CanBe(R.alone[k][1]) \cap {"rays", "set"} = {} => R.alone[k][3] = <<>>
        THEN {} ELSE {"arrivals-of-no-phase"})
Judge == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED rec
         /\ \A x \in Fails : PrintT(<<"FAIL", rec, x>>)
         /\ PrintT(<<"V", IF R.whole = <<>> THEN "no arrivals" ELSE "arrivals">>)
TraceSpec == Init /\ [][Judge]_<<rec, ph>>
==============================================================================
