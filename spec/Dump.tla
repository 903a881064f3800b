--------------------------------- MODULE Dump ---------------------------------
(* Writes the layout tables as JSON for the harness generator (tools/gen.py). *)
EXTENDS Made, Json
ASSUME JsonSerialize("layouts.json",
         [records |-> Records, pdus |-> LibPdus, users |-> UserPdus, own |-> OwnPdus, heads |-> Heads, variants |-> VariantOf, prims |-> PrimWidth,
          header |-> HeaderLayout, ctors |-> Ctors, odd |-> OddDefaults])
=============================================================================
