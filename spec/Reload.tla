------------------------------- MODULE Reload -------------------------------
(* Servers and the files that are loaded into them, in every order, again and *)
(* again, some of them broken, some before what they need is there (C26).     *)
(* One load is what AddNodes shows that it is: the nodes that can be added    *)
(* are added, then the references of all nodes of the file, in both           *)
(* directions, as far as everything they need exists.                         *)
(* Every history is replayed on the real code.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K,            \* loads
          Servers, Kinds
(* files: nodes as <<id, parent, what else it needs>>, references as <<source, type, target>> *)
Root == "root"
Own == "own"            \* a reference type that the server has
Nodes(f) == CASE f = "P" -> {<<"p", Root>>, <<"p2", "p">>}
    [] f = "C" -> {<<"c", "p">>, <<"c2", "c">>}
    [] f = "Q" -> {<<"q", Root>>}
    [] f = "R" -> {<<"rt", Root>>, <<"rt2", "rt">>}
    [] f = "T" -> {<<"t", Root>>}
    [] f = "D" -> {<<"d", Root>>}
    [] f = "E" -> {<<"e", Root>>, <<"v", Root>>}
    [] f = "S" -> {<<"s", "d">>, <<"w", "p">>}
    [] f = "M" -> {<<"p", Root>>, <<"m", Root>>}        \* one that it shares with P
    [] OTHER -> {}
Refs(f) == CASE f = "Q" -> {<<"q", Own, "c">>, <<"c2", Own, "q">>}
    [] f = "T" -> {<<"t", "rt2", "p">>, <<"t", Own, "t">>}
    [] f = "M" -> {<<"m", Own, "p2">>, <<"q", Own, "m">>}
    [] f = "S" -> {<<"w", "rt", "t">>}
    [] OTHER -> {}
(* a reference is a line of the element of one of its ends *)
Written(f) == {r \in Refs(f) : \E x \in Nodes(f) : x[1] \in {r[1], r[3]}}
DataTypes == {"d", "e", "s"}
Fails(f) == f \in {"B", "Y"}            \* not well-formed; a hierarchy that is a cycle
VARIABLES hist,         \* loads: <<server, file>>
          nodes, refs, types, prev
vars == <<hist, nodes, refs, types, prev>>
RECURSIVE Fix(_, _)
Fix(A, F) == LET B == A \cup {x[1] : x \in {y \in F : y[2] \in A}} IN IF A = B THEN A ELSE Fix(B, F)
(* hierarchical references come with the nodes, whoever brings them *)
Possible(f, A) == {r \in {<<x[2], "h", x[1]>> : x \in Nodes(f)} \cup Written(f) : r[1] \in A /\ r[3] \in A /\ r[2] \in A \cup {Own, "h"}}
Init == hist = <<>> /\ nodes = [s \in Servers |-> {Root}] /\ refs = [s \in Servers |-> {}] /\ types = [s \in Servers |-> <<>>] /\ prev = <<nodes, refs, types>>
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Load == \E s \in Servers, f \in Kinds :
           /\ Len(hist) < K /\ hist' = Append(hist, <<s, f>>) /\ prev' = <<nodes, refs, types>>
           /\ IF Fails(f) THEN UNCHANGED <<nodes, refs, types>>
              ELSE LET A == Fix(nodes[s], Nodes(f)) IN
                   /\ nodes' = [nodes EXCEPT ![s] = A]
                   /\ refs' = [refs EXCEPT ![s] = @ \cup Possible(f, A)]
                   /\ types' = [types EXCEPT ![s] = @ \o AsSeq((A \ nodes[s]) \cap DataTypes)]
Next == Load
Spec == Init /\ [][Next]_vars
Files(s) == {hist[i][2] : i \in {j \in DOMAIN hist : hist[j][1] = s}} \ {"B", "Y"}
(* what was there stays, other servers do not notice *)
Keeps == \A s \in Servers : /\ prev[1][s] \subseteq nodes[s] /\ prev[2][s] \subseteq refs[s] /\ prev[3][s] = SubSeq(types[s], 1, Len(prev[3][s]))
                            /\ hist # <<>> /\ hist[Len(hist)][1] # s => prev[1][s] = nodes[s] /\ prev[2][s] = refs[s] /\ prev[3][s] = types[s]
(* nothing comes twice *)
Once == \A s \in Servers : Cardinality({types[s][i] : i \in DOMAIN types[s]}) = Len(types[s]) /\ {types[s][i] : i \in DOMAIN types[s]} = nodes[s] \cap DataTypes
Again == Len(hist) >= 2 /\ hist[Len(hist)] = hist[Len(hist) - 1] => prev = <<nodes, refs, types>>
(* nothing but what the files say, and when no load can add anything any more, all of it, in whatever order they came *)
Sound == \A s \in Servers : /\ nodes[s] \subseteq Fix({Root}, UNION {Nodes(f) : f \in Files(s)})
                            /\ refs[s] \subseteq UNION {Possible(f, nodes[s]) : f \in Files(s)}
Quiet(s) == \A f \in Files(s) : Fix(nodes[s], Nodes(f)) = nodes[s] /\ Possible(f, nodes[s]) \subseteq refs[s]
Whole == \A s \in Servers : Quiet(s) => /\ nodes[s] = Fix({Root}, UNION {Nodes(f) : f \in Files(s)})
                                        /\ refs[s] = UNION {Possible(f, nodes[s]) : f \in Files(s)}
Emit == Len(hist) = K => PrintT("LOADS " \o ToJson(hist))
=============================================================================
