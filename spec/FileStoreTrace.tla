---------------------------- MODULE FileStoreTrace ----------------------------
(***************************************************************************)
(* A history of FileStoreMC as the code under test had it: operations ops; *)
(* for each of them got, the model loaded (-1: refused, 0: nothing was     *)
(* loaded; -2: a model nobody made), done, whether it went without an      *)
(* exception, and after, all files there were afterwards with the models   *)
(* in them.                                                                *)
(***************************************************************************)
EXTENDS FileStore, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Recs == Data.recs
VARIABLES rec, k, fs, dirs, cwd
vars == <<rec, k, fs, dirs, cwd>>
R == Recs[rec]
Init == /\ \E r \in 1..Len(Recs) : rec = r
        /\ k = 1 /\ fs = Start /\ dirs = StartDirs /\ cwd = <<"w1">>
Fail(x) == PrintT(<<"FAIL", rec, x>>)
V(x) == PrintT(<<"V", x>>)
Op == R.ops[k]
Possible ==     \* can the operation be done at all?
  CASE Op[1] = "create" -> CanMake(fs, dirs, Target(Op[3], cwd))
    [] Op[1] \in {"write"} -> CanWrite(fs, dirs, Target(Op[3], cwd))
    [] Op[1] = "copy" -> FALSE
    [] OTHER -> TRUE
Seen == {<<e[1], e[2]>> : e \in {R.after[k][i] : i \in 1..Len(R.after[k])}}
Move == /\ k <= Len(R.ops)
        /\ V(Op[1])
        /\ IF Op[1] \in {"load", "copy"} => R.got[k] \in Loads(Op[2], fs, cwd)
           THEN TRUE ELSE Fail("loaded")
        /\ IF Possible => R.done[k] = 1 THEN TRUE ELSE Fail("raised")
        /\ LET a == After(Op, fs, dirs, cwd, R.got[k])
               want == {<<p, a[1][p]>> : p \in DOMAIN a[1]} IN
           /\ IF {e[1] : e \in Seen} = DOMAIN a[1] THEN TRUE ELSE Fail("files")
           /\ IF Seen = want THEN TRUE ELSE Fail("contents")
           /\ IF Op[1] \in {"create", "write"} /\ a[1] = fs THEN V("nothing written")
              ELSE TRUE
           /\ fs' = a[1] /\ dirs' = a[2] /\ cwd' = a[3]
        /\ k' = k + 1 /\ UNCHANGED rec
TraceSpec == Init /\ [][Move]_vars
==============================================================================
