-------------------------------- MODULE Host --------------------------------
(* The server before any load, as data: read from the host that the backend   *)
(* runs in. Its nodes with class, abstractness and supertypes, and its table  *)
(* of built-in data types with the sizes and alignments of the C compiler.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
HostData == ndJsonDeserialize(IOEnv.BASE)[1]
RangeOf(s) == {s[i] : i \in DOMAIN s}
ById(ts) == TLCEval([id \in {ts[i].id : i \in DOMAIN ts} |-> ts[CHOOSE i \in DOMAIN ts : ts[i].id = id]])
HostNs == HostData.ns
HostTypes == HostData.types
(* id -> [cls, abs, sup]: sup = set of supertypes *)
BNodes == LET N == ById(HostData.nodes) IN TLCEval([id \in DOMAIN N |-> [cls |-> N[id].cls, abs |-> N[id].abs, sup |-> RangeOf(N[id].sup)]])
(* id -> [name, kind, size, al, pf, enc, m] *)
BTypes == ById(HostTypes)
=============================================================================
