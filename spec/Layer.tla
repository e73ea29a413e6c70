-------------------------------- MODULE Layer --------------------------------
(***************************************************************************)
(* A layer and the ray that goes through it, as a piece of work: the layer   *)
(* is cut, its pieces are cut again, at a slowness or at a depth.  Whatever  *)
(* the cuts, the pieces together are the layer.                             *)
(* Layers are described by class; a cut is <<piece, "p" or "d", tenths>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Shapes == {"falling", "steep", "cliff", "flat", "rising", "velocity", "slight"}
Places == {"surface", "crust", "mantle", "core", "inner", "centre"}
Thick == {"none", "micro", "metre", "km", "lots"}
Rays == {"zero", "small", "half", "near", "turning"}
\* At the centre only the vertical ray goes all the way; the slowness is zero there.
Possible(x) == /\ (x.place = "centre" => x.shape \in {"falling", "velocity"} /\ x.thick = "lots"
                                         /\ x.ray = "zero")
               \* no ray turns in the middle of a layer of constant slowness
               /\ (x.shape = "flat" => x.ray # "turning")
CONSTANTS MaxCuts, Tenths
VARIABLES layer, pieces, cuts
vars == <<layer, pieces, cuts>>
\* pieces: how many parts there are; a cut piece becomes two
Init == /\ layer \in {x \in [shape : Shapes, place : Places, thick : Thick, ray : Rays] : Possible(x)}
        /\ pieces = 1 /\ cuts = <<>>
CanCut == layer.thick \notin {"none", "micro"} /\ layer.place # "centre"
Cut == /\ CanCut /\ Len(cuts) < MaxCuts
       /\ \E k \in 1..pieces, how \in {"p", "d"}, f \in Tenths :
            /\ (layer.shape = "flat" => how = "d")
            /\ cuts' = Append(cuts, <<k, how, f>>)
       /\ pieces' = pieces + 1 /\ UNCHANGED layer
Spec == Init /\ [][Cut]_vars
Counted == pieces = Len(cuts) + 1
==============================================================================
