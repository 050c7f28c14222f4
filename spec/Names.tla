------------------------------- MODULE Names -------------------------------
(* What the indices and names of a file stand for, as an algorithm            *)
(* (NamespaceList.c, AliasList.c, Nodeset_newFile): a table of indices and a  *)
(* list of aliases that grow while a file is read and that every file begins  *)
(* anew, and a host that gives out indices. Checked for every history of K    *)
(* files: indices and aliases stand for what the file says, whatever was read *)
(* before. Every history is replayed on the real code (C04, C05, C23).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Big
(* tables of a file, the index in the id of its node, declarations of its     *)
(* alias (the schema has the table in front of the aliases)                   *)
Tables == IF Big THEN {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>} ELSE {<<>>, <<"a">>, <<"b", "a">>}
File == [t : Tables, i : IF Big THEN 1..3 ELSE 1..2, a : IF Big THEN {<<>>, <<1>>, <<2>>, <<2, 1>>, <<1, 3>>} ELSE {<<>>, <<1>>}]
VARIABLES hist, todo, host, table, alias, got
vars == <<hist, todo, host, table, alias, got>>
Init == hist = <<>> /\ todo = <<>> /\ host = <<"ns0", "own">> /\ table = <<0>> /\ alias = <<>> /\ got = <<>>
Items(f) == LET us == [j \in DOMAIN f.t |-> <<"uri", f.t[j]>>]
                as == [j \in DOMAIN f.a |-> <<"alias", f.a[j]>>]
            IN us \o as \o <<<<"node", f.i>>>>
Open == /\ todo = <<>> /\ Len(hist) < K
        /\ \E f \in File : hist' = Append(hist, f) /\ todo' = Items(f)
        /\ table' = <<0>> /\ alias' = <<>> /\ UNCHANGED <<host, got>>
Pos(u, h) == CHOOSE j \in DOMAIN h : h[j] = u
Tr(n) == IF n < Len(table) THEN table[n + 1] ELSE n
Item == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED hist
        /\ LET x == Head(todo) IN
           CASE x[1] = "uri" -> /\ host' = IF \E j \in DOMAIN host : host[j] = x[2] THEN host ELSE Append(host, x[2])
                                /\ table' = Append(table, Pos(x[2], host') - 1) /\ UNCHANGED <<alias, got>>
             [] x[1] = "alias" -> alias' = Append(alias, Tr(x[2])) /\ UNCHANGED <<host, table, got>>
             [] OTHER -> got' = Append(got, <<Tr(x[2]), IF alias = <<>> THEN "none" ELSE ToString(alias[1])>>) /\ UNCHANGED <<host, table, alias>>
Next == Open \/ Item
Spec == Init /\ [][Next]_vars
(* what they mean *)
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN <<>> ELSE Head(h).t \o Flat(Tail(h))
All == Flat(hist)
First(u) == CHOOSE j \in DOMAIN All : All[j] = u /\ \A k \in 1..j - 1 : All[k] # u
Index(u) == 2 + Cardinality({All[k] : k \in 1..First(u) - 1})
Means(f, n) == IF n <= Len(f.t) THEN Index(f.t[n]) ELSE n
Right == \A k \in DOMAIN got : LET f == hist[k] IN
             /\ got[k][1] = Means(f, f.i)
             /\ got[k][2] = IF f.a = <<>> THEN "none" ELSE ToString(Means(f, f.a[1]))
(* the host knows every namespace once *)
Injective == \A j, k \in DOMAIN host : host[j] = host[k] => j = k
Emit == Len(hist) = K /\ todo = <<>> => PrintT("FILES " \o ToJson(hist))
=============================================================================
