------------------------------ MODULE Classify ------------------------------
(* How reference types become hierarchical or not, as an algorithm            *)
(* (Nodeset_newNodeFinish, lookupReferenceTypes): a type is classified as     *)
(* soon as its supertypes are, the others wait for the sort, which takes the  *)
(* type about which most is known first. For every small set of reference     *)
(* types in every order the outcome has to be the least fixpoint of           *)
(* Meaning.tla. The sets are replayed on the real code.                       *)
EXTENDS Meaning, Json
CONSTANTS K,        \* number of reference types, declared in the order 1, 2, ..
          R,        \* inverse references of each
          Vias      \* "HasSubtype" or "any" type as type of these references
T == 1..K
Id(t) == CASE t = "H" -> <<0, "i=33">> [] t = "N" -> <<0, "i=32">> [] t = "S" -> <<0, "i=45">>
           [] t = "X" -> <<1, "x">> [] OTHER -> <<1, t>>
Name == <<"a", "b", "c", "d">>
Others(t) == {Name[i] : i \in T \ {t}}
Pairs(t) == (IF Vias = "any" THEN {"S"} \cup Others(t) ELSE {"S"}) \X ({"H", "N", "X"} \cup Others(t))
Choices(t) == {P \in SUBSET Pairs(t) : Cardinality(P) <= R}
VARIABLES decl,     \* the references <<type, supertype>> of the reference types read so far
          next,     \* the next one in the file
          hier,     \* classified as hierarchical, names
          non,      \* classified as not
          wait,     \* postponed, a sequence
          told      \* the order in which they were classified
vars == <<decl, next, hier, non, wait, told>>
KnownName(x) == x \in {"H", "N", "S"} \cup hier \cup non
IsHier(x) == x \in {"H", "S"} \cup hier
HRefsOf(i) == {p \in decl[i] : IsHier(p[1])}
Unknown(i) == {p \in decl[i] : ~KnownName(p[1])}
Supers(i) == \A p \in HRefsOf(i) : KnownName(p[2])
Surely(i) == \E p \in HRefsOf(i) : IsHier(p[2])
Register(i) == told' = Append(told, i) /\ IF Surely(i) THEN hier' = hier \cup {Name[i]} /\ UNCHANGED non
               ELSE non' = non \cup {Name[i]} /\ UNCHANGED hier
Init == decl = <<>> /\ next = 1 /\ hier = {} /\ non = {} /\ wait = <<>> /\ told = <<>>
Declare == next \in T /\ Len(decl) < next /\ (\E P \in Choices(next) : decl' = Append(decl, P)) /\ UNCHANGED <<next, hier, non, wait, told>>
Read == /\ next \in T /\ Len(decl) = next /\ next' = next + 1
        /\ IF Unknown(next) = {} /\ Supers(next) THEN Register(next) /\ UNCHANGED wait
           ELSE wait' = Append(wait, next) /\ UNCHANGED <<hier, non, told>>
        /\ UNCHANGED decl
(* i waits for a type that is still to come: for a supertype, for the type of *)
(* one of its references                                                      *)
Coming(i) == {Name[j] : j \in Range(wait) \ {i}}
WaitsSuper(i) == \E p \in HRefsOf(i) : p[2] \in Coming(i)
WaitsType(i) == \E p \in Unknown(i) : p[1] \in Coming(i)
Rank(i) == IF Supers(i) /\ Unknown(i) = {} THEN 5
           ELSE IF ~WaitsSuper(i) /\ ~WaitsType(i) THEN 4
           ELSE IF Surely(i) THEN (IF WaitsSuper(i) THEN 2 ELSE 3)
           ELSE (IF WaitsSuper(i) THEN 0 ELSE 1)
Best == LET ranks == [k \in DOMAIN wait |-> Rank(wait[k])]
            top == CHOOSE m \in Range(ranks) : \A x \in Range(ranks) : x <= m
        IN CHOOSE k \in DOMAIN wait : ranks[k] = top /\ \A j \in 1..(k - 1) : ranks[j] # top
Look == /\ next = K + 1 /\ wait # <<>>
        /\ Register(wait[Best])
        /\ wait' = SubSeq([wait EXCEPT ![Best] = wait[Len(wait)]], 1, Len(wait) - 1)
        /\ UNCHANGED <<decl, next>>
Next == Declare \/ Read \/ Look
Spec == Init /\ [][Next]_vars

Nodes == [i \in T |-> [cls |-> "ReferenceType", id |-> Id(Name[i]), par |-> NullId,
              refs |-> LET q == CHOOSE s \in [1..Cardinality(decl[i]) -> decl[i]] : Range(s) = decl[i]
                       IN [k \in DOMAIN q |-> [f |-> FALSE, t |-> Id(q[k][1]), g |-> Id(q[k][2])]]]]
Done == next = K + 1 /\ wait = <<>>
(* also if the import is refused in the end *)
Agrees == {Id(x) : x \in hier} = Hier(HierNs0, Nodes) \ HierNs0
(* a user's service hears of the supertypes of a type first (not always       *)
(* possible if reference types are related by reference types of the file)    *)
SuperFirst == Vias = "HasSubtype" /\ SortOk("cust", Nodes) => \A i, j \in DOMAIN told : i < j => <<"S", Name[told[j]]>> \notin decl[told[i]]
Inv == Done => (Agrees /\ SuperFirst) = TRUE
Report == Done /\ (Agrees /\ SuperFirst) # TRUE => PrintT("BAD " \o ToJson(decl))
Emit == Len(decl) = K /\ next = K => PrintT("TYPES " \o ToJson(decl))
=============================================================================
