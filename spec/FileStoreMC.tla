----------------------------- MODULE FileStoreMC -----------------------------
(* All histories of operations on model files. *)
EXTENDS FileStore
CONSTANTS Built, Others, MaxOps, Emit, Kinds, SomeNames
\* Built: models TauP_Create can make; Others: models that are only at hand.
VARIABLES hist, pick, fs, dirs, cwd
vars == <<hist, pick, fs, dirs, cwd>>
MyNames == IF SomeNames THEN {n \in Names : n[2] \in {<<"mine">>, <<"syn">>, <<"w1", "syn">>, <<"w2", "mine">>, <<"junk", "mine">>}} ELSE Names
Init == hist = <<>> /\ pick = "" /\ fs = Start /\ dirs = StartDirs /\ cwd = <<"w1">>
Choose1 == /\ pick = "" /\ Len(hist) < MaxOps /\ pick' \in Kinds
           /\ UNCHANGED <<hist, fs, dirs, cwd>>
Do(op, loaded) ==
  LET a == After(op, fs, dirs, cwd, loaded) IN
  /\ hist' = Append(hist, <<op, loaded>>) /\ pick' = ""
  /\ fs' = a[1] /\ dirs' = a[2] /\ cwd' = a[3]
Next1 ==
  \/ pick \in {"create", "create2"} /\ \E m \in Built, n \in MyNames : Do(<<"create", m, n>>, 0)
  \/ pick = "write" /\ \E m \in Built \cup Others, n \in MyNames : Do(<<"write", m, n>>, 0)
  \/ pick = "copy" /\ \E a, b \in MyNames : \E l \in Loads(a, fs, cwd) : Do(<<"copy", a, b>>, l)
  \/ pick \in {"load", "load2"} /\ \E n \in MyNames : \E l \in Loads(n, fs, cwd) : Do(<<"load", n>>, l)
  \/ pick = "remove" /\ \E n \in MyNames : Target(n, cwd) \in DOMAIN fs /\ Do(<<"remove", n>>, 0)
  \/ pick = "chdir" /\ \E w \in WorkDirs : w # cwd /\ Do(<<"chdir", w>>, 0)
  \/ pick = "install" /\ \E m \in Built, b \in BuiltIn : Do(<<"install", m, b>>, 0)
Spec == Init /\ [][Choose1 \/ Next1]_vars
\* The working directory after k operations, and whether operation k put
\* something into the file p; both from the history alone.
RECURSIVE CwdAfter(_)
CwdAfter(k) == IF k = 0 THEN <<"w1">>
               ELSE IF hist[k][1][1] = "chdir" THEN hist[k][1][2] ELSE CwdAfter(k - 1)
Wrote(k, p) == LET o == hist[k][1] IN
  \/ o[1] \in {"create", "write"} /\ Target(o[3], CwdAfter(k - 1)) = p
  \/ o[1] = "copy" /\ hist[k][2] # -1 /\ Target(o[3], CwdAfter(k - 1)) = p
  \/ o[1] = "install" /\ Package(o[3]) = p
What(k) == IF hist[k][1][1] = "copy" THEN hist[k][2] ELSE hist[k][1][2]
Removed(k, p) == hist[k][1][1] = "remove" /\ Target(hist[k][1][2], CwdAfter(k - 1)) = p
\* A file holds what was written to it last (no other operation, and no
\* operation on another file, changes it), or what was there at the start.
LastWritten ==
  \A p \in DOMAIN fs :
    LET ws == {k \in 1..Len(hist) : Wrote(k, p) \/ Removed(k, p)} IN
    IF ws = {} THEN p \in DOMAIN Start /\ fs[p] = Start[p]
    ELSE LET k == CHOOSE x \in ws : \A y \in ws : y <= x IN ~Removed(k, p) /\ fs[p] = What(k)
\* What is not there was removed, never written, or could not be written.
NotThere ==
  \A k \in 1..Len(hist) : \A n \in MyNames :
    LET p == Target(n, CwdAfter(k)) IN
    (Wrote(k, p) /\ p \notin DOMAIN fs)
      => \/ \E j \in k..Len(hist) : Removed(j, p)
         \/ p[1] = "w1" /\ p[2] = "junk"        \* the file junk is in the way
         \/ p \in dirs
         \/ hist[k][1][1] \in {"write", "copy"} \* missing directory
\* Files are in directories, and nothing is both.
Tree == \A p \in DOMAIN fs : Above(p) \subseteq dirs /\ p \notin dirs
Out == IF Emit /\ Len(hist) = MaxOps THEN PrintT(<<"HIST", [k \in 1..Len(hist) |-> hist[k][1]]>>) ELSE TRUE
==============================================================================
