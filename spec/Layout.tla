------------------------------- MODULE Layout -------------------------------
(* How data types get their C memory layout, as an algorithm                  *)
(* (DataTypeImporter.c): the members that a type has from its supertype are   *)
(* in front of its own ones; pass after pass, the types of which the sizes of *)
(* all members are known are laid out; when a pass achieves nothing, the      *)
(* first type that is left gets Variants for the members without size.        *)
(* Checked for every small set of types in every order: it ends, every type   *)
(* gets the offsets and the size that C prescribes, and the types of members  *)
(* are changed only where structures would contain themselves (C21).          *)
(* Every set of types is replayed on the real code.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT,           \* number of types
          K,            \* members per type, in digits: 12 means 1 for the first type, 2 for the second
          Leafs, Mods,
          Kinds,        \* "S" structures, "U" unions
          Rec,          \* may a type refer to itself and to later ones?
          Abstract      \* may types be abstract?
V == 1..NT
MaxOwn(t) == (K \div 10^(NT - t)) % 10
(* built-in types: 1/1, 2/2, 4/4, 8/8, String, Guid, Variant, QualifiedName; 19: an enumeration of the file *)
Size == 11 :> 1 @@ 12 :> 2 @@ 14 :> 4 @@ 18 :> 8 @@ 19 :> 4 @@ 20 :> 16 @@ 21 :> 16 @@ 22 :> 80 @@ 23 :> 24
Al == 11 :> 1 @@ 12 :> 2 @@ 14 :> 4 @@ 18 :> 8 @@ 19 :> 4 @@ 20 :> 8 @@ 21 :> 4 @@ 22 :> 8 @@ 23 :> 8
Variant == 22
Plain == 0
Array == 1
Optional == 2
VARIABLES kind, abs, sup, own,  \* the types of the file
          mem,                  \* members with the inherited ones
          size, offs,           \* layout; 0: not known yet
          pos, progress, passes
vars == <<kind, abs, sup, own, mem, size, offs, pos, progress, passes>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

----------------------------------------------------------------------------
(* what C prescribes *)
ByValue(m) == m[2] = Plain
MSize(m, sz) == IF m[2] = Array THEN 16 ELSE IF m[2] = Optional THEN 8 ELSE IF m[1] \in V THEN sz[m[1]] ELSE Size[m[1]]
Inside(M) == {<<t, M[t][i][1]>> : <<t, i>> \in {q \in V \X (1..10) : q[2] \in DOMAIN M[q[1]] /\ ByValue(M[q[1]][q[2]])}}
RECURSIVE Reach(_, _)
Reach(S, E) == LET B == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF B = S THEN S ELSE Reach(B, E)
(* aligned like the strictest thing that is somewhere inside *)
AlignOf(t, M) ==
    Max({1} \cup UNION {(IF kind[x] = "U" THEN {4} ELSE {}) \cup {IF ByValue(M[x][i]) THEN IF M[x][i][1] \in V THEN 1 ELSE Al[M[x][i][1]] ELSE 8 : i \in DOMAIN M[x]}
                        : x \in Reach({t}, Inside(M)) \cap V})
MAlign(m, M) == IF ~ByValue(m) THEN 8 ELSE IF m[1] \in V THEN AlignOf(m[1], M) ELSE Al[m[1]]
LayoutRight(t, M, sz, of) ==
    LET al == AlignOf(t, M)
        n == Len(M[t])
        end(i) == IF i = 0 THEN 0 ELSE of[i] + MSize(M[t][i], sz)
        first == Min({o \in 4..(4 + al) : o % al = 0})          \* behind the switch field
    IN /\ Len(of) = n
       /\ IF kind[t] = "U"
          THEN /\ \A i \in 1..n : of[i] = first
               /\ sz[t] = Min({s \in 0..400 : s % al = 0 /\ \A i \in 1..n : s >= end(i)})
          ELSE /\ \A i \in 1..n : LET a == MAlign(M[t][i], M) IN of[i] = Min({o \in end(i - 1)..(end(i - 1) + 8) : o % a = 0})
               /\ sz[t] = Min({s \in end(n)..(end(n) + 8) : s % al = 0})
Cyclic(M) == {t \in V : t \in UNION {Reach({e[2]}, Inside(M)) : e \in {x \in Inside(M) : x[1] = t}}}
(* a member of an abstract type can hold any subtype *)
Own == [t \in V |-> [i \in DOMAIN own[t] |-> IF own[t][i][1] \in V /\ abs[own[t][i][1]] THEN <<Variant, own[t][i][2]>> ELSE own[t][i]]]
Declared == [t \in V |-> IF sup[t] = 0 THEN Own[t] ELSE IF sup[sup[t]] = 0 THEN Own[sup[t]] \o Own[t] ELSE Own[sup[sup[t]]] \o Own[sup[t]] \o Own[t]]
(* types that would contain themselves, or a type that does *)
Unfounded == {t \in V : Reach({t}, Inside(Declared)) \cap Cyclic(Declared) # {}}

----------------------------------------------------------------------------
(* the algorithm *)
Pad(al, o) == IF o % al = 0 THEN 0 ELSE al - (o % al)
RECURSIVE CodeAlign(_, _)
CodeAlign(t, M) == Max({IF kind[t] = "U" THEN 4 ELSE 1} \cup
                       {IF ~ByValue(M[t][i]) THEN 8 ELSE IF M[t][i][1] \in V THEN CodeAlign(M[t][i][1], M) ELSE Al[M[t][i][1]] : i \in DOMAIN M[t]})
CodeMAlign(m, M) == IF ~ByValue(m) THEN 8 ELSE IF m[1] \in V THEN CodeAlign(m[1], M) ELSE Al[m[1]]
RECURSIVE Place(_, _, _, _)
Place(ms, M, o, acc) == IF ms = <<>> THEN [of |-> acc, end |-> o]
                        ELSE LET p == o + Pad(CodeMAlign(Head(ms), M), o) IN Place(Tail(ms), M, p + MSize(Head(ms), size), Append(acc, p))
Ready(m) == ~ByValue(m) \/ m[1] \notin V \/ size[m[1]] > 0
CanLay(t) == \A i \in DOMAIN mem[t] : Ready(mem[t][i])
Lay(t) == LET al == CodeAlign(t, mem)
              o == 4 + Pad(al, 4)
              p == Place(mem[t], mem, 0, <<>>)
              end == IF kind[t] = "U" THEN o + Max({0} \cup {MSize(mem[t][i], size) : i \in DOMAIN mem[t]}) ELSE p.end
          IN /\ offs' = [offs EXCEPT ![t] = IF kind[t] = "U" THEN [i \in DOMAIN mem[t] |-> o] ELSE p.of]
             /\ size' = [size EXCEPT ![t] = end + Pad(al, end)]
Members(t, u) == {<<l, m>> : l \in Leafs \cup (IF Rec THEN V ELSE 1..(t - 1)), m \in IF u = "U" THEN Mods \ {Optional} ELSE Mods}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ kind \in [V -> Kinds] /\ abs \in [V -> IF Abstract THEN BOOLEAN ELSE {FALSE}]
        /\ sup \in [V -> 0..(NT - 1)] /\ \A t \in V : sup[t] < t /\ (sup[t] # 0 => kind[t] = "S" /\ kind[sup[t]] = "S")
        /\ own \in [V -> Seqs(UNION {Members(t, "S") : t \in V}, Max({MaxOwn(t) : t \in V}))]
        /\ \A t \in V : Len(own[t]) <= MaxOwn(t) /\ (Len(own[t]) = 0 => sup[t] # 0) /\ \A i \in DOMAIN own[t] : own[t][i] \in Members(t, kind[t])
        /\ mem = Declared
        /\ size = [t \in V |-> 0] /\ offs = [t \in V |-> <<>>]
        /\ pos = 1 /\ progress = FALSE /\ passes = 1
Step == /\ pos <= NT /\ pos' = pos + 1
        /\ IF size[pos] = 0 /\ CanLay(pos) THEN Lay(pos) /\ progress' = TRUE ELSE UNCHANGED <<size, offs, progress>>
        /\ UNCHANGED <<kind, abs, sup, own, mem, passes>>
Left == {t \in V : size[t] = 0}
Again == /\ pos > NT /\ Left # {} /\ pos' = 1 /\ progress' = FALSE /\ passes' = passes + 1
         /\ mem' = IF progress THEN mem
                   ELSE LET t == Min(Left) IN [mem EXCEPT ![t] = [i \in DOMAIN mem[t] |-> IF Ready(mem[t][i]) THEN mem[t][i] ELSE <<Variant, mem[t][i][2]>>]]
         /\ UNCHANGED <<kind, abs, sup, own, size, offs>>
Next == Step \/ Again
Spec == Init /\ [][Next]_vars
Ended == pos > NT /\ Left = {}

----------------------------------------------------------------------------
Ends == passes <= 2 * NT + 1
Right == Ended => \A t \in V : LayoutRight(t, mem, size, offs[t])
Kept == Ended => \A t \in V : t \notin Unfounded => mem[t] = Declared[t]
Founded == Ended => Cyclic(mem) = {}
Emit == pos = 1 /\ passes = 1 => PrintT("TYPES " \o ToJson([t \in V |-> <<kind[t], sup[t], own[t], abs[t]>>]))
=============================================================================
