------------------------------ MODULE AddNodes ------------------------------
(* How the nodes of a nodeset get into a server, as an algorithm (import.c):  *)
(* one pass per node class, in each the nodes in the order of the sorter,     *)
(* then again and again the nodes that were refused, until none is added.     *)
(* Checked for every small nodeset and every order the sorter may choose:     *)
(* what gets added is the least set closed under adding, so neither the order *)
(* in the document nor the order of the classes plays a role (C19, C20).      *)
(* Every nodeset is replayed on the real code.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Classes,
          Defs,         \* with type definitions?
          Roots         \* parents outside of the nodeset
Order == <<"ReferenceType", "DataType", "ObjectType", "VariableType", "Object", "Method", "Variable", "View">>
Types == {"ReferenceType", "DataType", "ObjectType", "VariableType"}
V == 1..N
Ext == 0                \* a node that the server has
No == 10                \* a node that there is not
NoParent == 20
TypeDefClass(c) == IF c = "Object" THEN "ObjectType" ELSE "VariableType"
VARIABLES cls, par, td, \* the nodeset
          pass,         \* class that is being added, Len(Order) + 1: second chances
          left,         \* nodes that this pass still has to try
          bad,          \* nodes that were refused
          added, gain   \* nodes in the server; added by this round?
vars == <<cls, par, td, pass, left, bad, added, gain>>
OfClass(c) == {n \in V : cls[n] = c}
TryOk(n, A) ==
    /\ CASE par[n] = Ext -> TRUE
         [] par[n] = No -> FALSE
         [] par[n] = NoParent -> cls[n] \in {"Object", "Variable"}
         [] OTHER -> par[n] \in A /\ (cls[n] \in Types => cls[par[n]] = cls[n])
    /\ CASE td[n] = Ext -> TRUE
         [] td[n] = No -> FALSE
         [] OTHER -> td[n] \in A /\ cls[td[n]] = TypeDefClass(cls[n])
(* parents come before their children in what the sorter delivers *)
Free(n) == n \in left /\ par[n] \notin left
Init == /\ cls \in [V -> Classes]
        /\ par \in [V -> Roots \cup V] /\ \A n \in V : par[n] \in V => par[n] < n
        /\ td \in [V -> {Ext, No} \cup V]
        /\ \A n \in V : IF ~Defs \/ cls[n] \notin {"Object", "Variable"} THEN td[n] = Ext
                        ELSE td[n] \in V => cls[td[n]] \in {"ObjectType", "VariableType"}
        /\ pass = 1 /\ left = OfClass(Order[1]) /\ bad = {} /\ added = {} /\ gain = FALSE
Try == \E n \in V :
          /\ Free(n) /\ left' = left \ {n}
          /\ IF TryOk(n, added) THEN added' = added \cup {n} /\ bad' = bad \ {n} /\ gain' = TRUE
             ELSE bad' = bad \cup {n} /\ UNCHANGED <<added, gain>>
          /\ UNCHANGED <<cls, par, td, pass>>
Pass == /\ left = {} /\ pass <= Len(Order) /\ pass' = pass + 1
        /\ left' = IF pass < Len(Order) THEN OfClass(Order[pass + 1]) ELSE bad
        /\ gain' = FALSE /\ UNCHANGED <<cls, par, td, bad, added>>
Again == left = {} /\ pass > Len(Order) /\ gain /\ bad # {} /\ left' = bad /\ gain' = FALSE /\ UNCHANGED <<cls, par, td, pass, bad, added>>
Next == Try \/ Pass \/ Again
Spec == Init /\ [][Next]_vars
RECURSIVE Fix(_)
Fix(A) == LET B == A \cup {n \in V : TryOk(n, A)} IN IF A = B THEN A ELSE Fix(B)
Ended == left = {} /\ pass > Len(Order) /\ ~(gain /\ bad # {})
Sound == added \subseteq Fix({})
Complete == Ended => added = Fix({}) /\ bad = V \ added
Emit == pass = 1 /\ left = OfClass(Order[1]) /\ added = {} /\ bad = {} => PrintT("SET " \o ToJson([i \in V |-> <<cls[i], par[i], td[i]>>]))
=============================================================================
