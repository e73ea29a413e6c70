------------------------------- MODULE LayerMC -------------------------------
(* Emits the ways of cutting a layer, for replay into the code. *)
EXTENDS Layer, TLC
Out == Len(cuts) = MaxCuts \/ ~ CanCut =>
         PrintT(<<"CUT", layer.shape, layer.place, layer.thick, layer.ray, cuts>>)
==============================================================================
