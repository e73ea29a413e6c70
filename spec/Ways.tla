--------------------------------- MODULE Ways ---------------------------------
(***************************************************************************)
(* The ways of asking one and the same question.                           *)
(*  kind   times, pierce points or paths                                   *)
(*  form   of a model, or with a tool object                               *)
(*  place  the distance, its negative, or the distance together with       *)
(*         coordinates (which then do not matter)                          *)
(*  list   the names as they are, in another order, each twice, or without *)
(*         (which means all)                                               *)
(*  type   the numbers as floats, as integers (what of them is whole), or  *)
(*         as numpy has them                                               *)
(* and then, of each arrival, its pierce points and its path in any order. *)
(* What the question is about are its arrivals, the points where each      *)
(* pierces boundaries, and its path: three values which no way of asking   *)
(* may change.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"time", "pierce", "path"}
Forms == {"model", "tool"}
Places == {"degrees", "negative", "both"}
Lists == {"as is", "reversed", "doubled"}
Types == {"float", "whole", "numpy"}
Ops == {"getPierce", "getPath"}
Is(op) == IF op = "getPierce" THEN "pierce" ELSE "path"
\* What an arrival knows after it was asked for as a kind
Fresh(kind) == {kind} \ {"time"}
==============================================================================
