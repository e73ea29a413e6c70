-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* Asking for the arrivals of a list of names.  To a name belongs what it  *)
(* is: "rays" (a phase with rays), "none" (a phase without, in this Earth  *)
(* and for this source), "bad" (no phase), "set" (short for several), and  *)
(* how the harness is to make one up (class).  A tool works through the    *)
(* list, and a name that is bad must not end its work.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
DepthClasses == {"surface", "shallow", "crust", "mantle", "core", "centre",
                 "boundary", "boundary+", "boundary-", "boundary~",
                 "layer", "layer+", "layer-", "whole"}
DistClasses == {"zero", "half", "round", "short", "any", "negative", "laps",
                "huge", "endless", "tiny", "nearly", "sample", "coordinates"}
NameClasses == {"standard", "grammar", "elsewhere", "alphabet", "strange",
                "shorthand", "kmps", "long"}
Kinds == {"time", "pierce", "path"}
\* What a name of a class can be
CanBe(c) == CASE c = "standard" -> {"rays", "none"}
              [] c = "grammar" -> {"rays", "none"}
              [] c = "elsewhere" -> {"rays", "none"}  \* none in an abstract Earth
              [] c = "alphabet" -> {"rays", "none", "bad"}
              [] c = "strange" -> {"none", "bad"}
              [] c = "shorthand" -> {"set"}
              [] c = "kmps" -> {"rays", "bad"}
              [] c = "long" -> {"rays", "none", "bad"}
==============================================================================
