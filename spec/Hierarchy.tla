----------------------------- MODULE Hierarchy -----------------------------
(* The order in which nodes are delivered as an algorithm (Sort.c): again and *)
(* again a node without untreated parents is taken; the import is refused if  *)
(* nodes are left. Checked for every graph of N nodes and every choice, also  *)
(* when a part of the nodes is declared and sorted before the rest; every     *)
(* graph is replayed on the real code.                                        *)
EXTENDS Meaning, Json
CONSTANTS N
V == 1..N
VARIABLES E,        \* hierarchical relations <<parent, child>>
          known,    \* nodes declared so far
          taken,    \* nodes treated by the sort that is running
          round     \* 1: sort after the first file, 2: sort after the second
vars == <<E, known, taken, round>>
(* relations that the declared nodes know about; each is declared by its child *)
Here == {e \in E : e[2] \in known}
Nodes == known \cup {e[1] : e \in Here}
Ready(v) == v \in Nodes \ taken /\ \A e \in Here : e[2] = v => e[1] \in taken
Init == /\ E \in SUBSET {e \in V \X V : e[1] # e[2]}
        /\ known \in {V} \cup {1..k : k \in 1..(N - 1)}
        /\ taken = {} /\ round = 1
Take == \E v \in V : Ready(v) /\ taken' = taken \cup {v} /\ UNCHANGED <<E, known, round>>
Ended == \A v \in V : ~Ready(v)
Second == Ended /\ round = 1 /\ known # V /\ known' = V /\ taken' = {} /\ round' = 2 /\ UNCHANGED E
Next == Take \/ Second
Spec == Init /\ [][Next]_vars

RECURSIVE Anc(_, _)
Anc(F, S) == LET T == S \cup {e[1] : e \in {d \in F : d[2] \in S}} IN IF T = S THEN S ELSE Anc(F, T)
(* nothing is taken before its ancestors *)
AncestorsFirst == \A v \in taken : Anc(Here, {v}) \subseteq taken
(* refused exactly if there is a cycle *)
Complete == Ended => ((taken = Nodes) <=> Acyclic(Here))
(* what lies on a cycle is never taken *)
NoCycleTaken == OnCycle(Here) \cap taken = {}
Emit == taken = {} /\ round = 1 /\ known = V => PrintT("GRAPH " \o ToJson(E))
=============================================================================
