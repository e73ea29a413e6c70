------------------------------ MODULE FileStore ------------------------------
(***************************************************************************)
(* Models in files.  A path is a sequence of directory and file names from *)
(* the top of the scratch directory; fs says which model is in which file  *)
(* (Garbage: something that is no model).  A name, as somebody writes it,  *)
(* is <<kind, path, stem>>: kind "abs" for an absolute path, "rel" for one *)
(* relative to the working directory (possibly with "." and ".."), "bare"  *)
(* for a name without directory and "ext" for such a name with an          *)
(* extension; the stem is what the last part is without its extension.     *)
(* The model built in under a name is in the file Package(stem).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Garbage == 99
Package(stem) == <<"package", stem>>
Name(kind, path, stem) == <<kind, path, stem>>
Names == {Name("bare", <<"mine">>, "mine"),
          Name("bare", <<"syn">>, "syn"),
          Name("bare", <<"std">>, "std"),
          Name("bare", <<"junk">>, "junk"),
          Name("ext", <<"mine.taup">>, "mine"),
          Name("ext", <<"syn.tvel">>, "syn"),
          Name("rel", <<".", "syn">>, "syn"),
          Name("rel", <<"deep", "er", "mine">>, "mine"),
          Name("rel", <<"deep", "syn">>, "syn"),
          Name("rel", <<"..", "w2", "mine">>, "mine"),
          Name("rel", <<"junk", "mine">>, "mine"),
          Name("rel", <<"junk", "deep", "syn">>, "syn"),
          Name("abs", <<"w1", "syn">>, "syn"),
          Name("abs", <<"w2", "mine">>, "mine"),
          Name("abs", <<"out", "a", "b", "syn.taup">>, "syn"),
          Name("abs", <<"out", "mine.tvel">>, "mine")}
WorkDirs == {<<"w1">>, <<"w2">>}
BuiltIn == {"syn", "std"}
StartDirs == {<<>>, <<"w1">>, <<"w2">>, <<"package">>}
Start == (Package("syn") :> 1) @@ (Package("std") :> 2)
         @@ (<<"w1", "junk">> :> Garbage)
RECURSIVE Norm(_, _)
Norm(done, todo) ==
  IF todo = <<>> THEN done
  ELSE IF Head(todo) = "." THEN Norm(done, Tail(todo))
  ELSE IF Head(todo) = ".." THEN Norm(SubSeq(done, 1, Len(done) - 1), Tail(todo))
  ELSE Norm(Append(done, Head(todo)), Tail(todo))
Target(n, cwd) == IF n[1] = "abs" THEN n[2] ELSE Norm(cwd, n[2])
Above(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
\* Can a file be put there, if missing directories are made, or not made
CanMake(fs, dirs, p) == Above(p) \cap DOMAIN fs = {} /\ p \notin dirs
CanWrite(fs, dirs, p) == SubSeq(p, 1, Len(p) - 1) \in dirs /\ p \notin dirs
Put(fs, p, m) == (p :> m) @@ fs
Gone(fs, p) == [q \in DOMAIN fs \ {p} |-> fs[q]]
At(fs, p) == IF p \in DOMAIN fs /\ fs[p] # Garbage THEN fs[p] ELSE -1
Bare(n) == n[1] \in {"bare", "ext"}
\* What loading a name may give (-1: it is refused).  Nothing is said about
\* a built-in name with an extension, or with the path of a missing file.
Loads(n, fs, cwd) ==
  LET own == At(fs, Target(n, cwd)) IN
  IF n[3] \in BuiltIn
  THEN LET built == At(fs, Package(n[3])) IN
       IF n[1] = "bare" THEN {built}
       ELSE IF n[1] = "ext" THEN {own, built}
       ELSE IF Target(n, cwd) \in DOMAIN fs THEN {own}
       ELSE {-1, built}
  ELSE {own}
\* One operation: <<fs, dirs, cwd>> afterwards
After(op, fs, dirs, cwd, loaded) ==
  CASE op[1] = "create" ->
         LET p == Target(op[3], cwd) IN
         IF CanMake(fs, dirs, p) THEN <<Put(fs, p, op[2]), dirs \cup Above(p), cwd>>
         ELSE <<fs, dirs, cwd>>
    [] op[1] = "write" ->
         LET p == Target(op[3], cwd) IN
         IF CanWrite(fs, dirs, p) THEN <<Put(fs, p, op[2]), dirs, cwd>>
         ELSE <<fs, dirs, cwd>>
    [] op[1] = "copy" ->     \* load op[2], write it to op[3]
         LET p == Target(op[3], cwd) IN
         IF loaded # -1 /\ CanWrite(fs, dirs, p) THEN <<Put(fs, p, loaded), dirs, cwd>>
         ELSE <<fs, dirs, cwd>>
    [] op[1] = "install" -> <<Put(fs, Package(op[3]), op[2]), dirs, cwd>>
    [] op[1] = "remove" -> <<Gone(fs, Target(op[2], cwd)), dirs, cwd>>
    [] op[1] = "chdir" -> <<fs, dirs, op[2]>>
    [] OTHER -> <<fs, dirs, cwd>>
==============================================================================
