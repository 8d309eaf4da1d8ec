---------------------------- MODULE CommandModel ----------------------------
(* The items in corpus/items, for Command.tla; and a few for the design. *)
EXTENDS Command
I(n) == [bodies |-> n, needs |-> {}, not |-> {}, force |-> {}, errs |-> FALSE]
E(n) == [I(n) EXCEPT !.errs = TRUE]
AllItems ==
     ("plain" :> I(1)) @@ ("moved" :> E(1)) @@ ("illtyped" :> E(1)) @@ ("closures" :> I(3)) @@ ("closerr" :> E(3)) @@ ("nested" :> I(2))
  @@ ("methods" :> I(4)) @@ ("module" :> I(2)) @@ ("flowbad" :> E(1)) @@ ("flowlocal" :> E(1)) @@ ("flowok" :> I(1)) @@ ("macros" :> I(1))
  @@ ("unicode" :> I(1)) @@ ("consts" :> I(0)) @@ ("warns" :> E(1)) @@ ("early" :> I(1)) @@ ("loans" :> I(1)) @@ ("generic" :> I(1))
  @@ ("borrowerr" :> E(1)) @@ ("asynch" :> I(2)) @@ ("mainfn" :> I(1)) @@ ("unsafes" :> I(1)) @@ ("empty" :> I(1)) @@ ("oneline" :> I(3))
  @@ ("drops" :> E(2))
  @@ ("opaque" :> [E(2) EXCEPT !.not = {"opaque_ok"}]) @@ ("opaque_ok" :> I(2))
  @@ ("useopaque" :> [I(1) EXCEPT !.needs = {{"opaque", "opaque_ok"}}, !.force = {"opaque", "opaque_ok"}])
  @@ ("opaquety" :> [E(1) EXCEPT !.not = {"opaquety_ok"}]) @@ ("opaquety_ok" :> I(1))
  @@ ("useopaquety" :> [I(1) EXCEPT !.needs = {{"opaquety", "opaquety_ok"}}, !.force = {"opaquety", "opaquety_ok"}])
  @@ ("opaquemet" :> [E(1) EXCEPT !.not = {"opaquemet_ok"}]) @@ ("opaquemet_ok" :> I(1)) @@ ("useopaquemet" :> [E(1) EXCEPT !.needs = {{"opaquemet", "opaquemet_ok"}}, !.force = {"opaquemet", "opaquemet_ok"}])
  @@ ("constfn" :> [E(1) EXCEPT !.not = {"constfn_ok", "useconstfn"}]) @@ ("constfn_ok" :> I(1))
  @@ ("useconstfn" :> [I(1) EXCEPT !.needs = {{"constfn_ok"}}, !.force = {"constfn_ok"}])
\* Those that have to do with errors, and with each other.
LinkedItems == [x \in {y \in DOMAIN AllItems : AllItems[y].force # {} \/ AllItems[y].not # {} \/ AllItems[y].errs} |-> AllItems[x]]
FewItems == [x \in {"plain", "moved", "closures", "opaque", "useopaque"} |-> AllItems[x]]
=============================================================================
