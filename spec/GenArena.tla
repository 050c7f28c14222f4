------------------------------ MODULE GenArena ------------------------------
(* Prints histories of the arena specification, to be replayed in the code.   *)
EXTENDS Arena, TLC, Json
Emit == Len(ops) = MaxOps => PrintT("OPS " \o ToJson(ops))
=============================================================================
