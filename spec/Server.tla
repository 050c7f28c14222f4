------------------------------- MODULE Server -------------------------------
(* What loading a nodeset into a server means: address space, namespaces,     *)
(* registered data types and values, on top of the meaning of a nodeset.      *)
(*                                                                            *)
(* A server state is a record                                                 *)
(*   ns     sequence of namespace URIs (index i - 1 is the server's index)    *)
(*   nodes  id -> node, without the nodes the host starts with (base nodes)   *)
(*   refs   set of <<source, forward, type, target>>, without those between   *)
(*          base nodes                                                        *)
(*   types  id -> registered custom data type                                 *)
(* The host is given as data (Host.tla).                                      *)
EXTENDS Meaning, Host

HasSubtype == <<0, "i=45">>
HierRoot == <<0, "i=33">>
RefRoot == <<0, "i=31">>
Structure == <<0, "i=22">>
Enumeration == <<0, "i=29">>
OptionSet == <<0, "i=12755">>
VariantType == <<0, "i=24">>
BaseDataVariableType == <<0, "i=63">>
BaseObjectType == <<0, "i=58">>
TypeClasses == {"ReferenceType", "DataType", "ObjectType", "VariableType"}
BaseIds == DOMAIN BNodes

----------------------------------------------------------------------------
(* namespaces (C23): the URIs of the file are added unless they are there *)
IndexOf(ns, u) == CHOOSE i \in DOMAIN ns : ns[i] = u /\ \A j \in 1..(i - 1) : ns[j] # u
RECURSIVE AddUris(_, _)
AddUris(ns, us) == IF us = <<>> THEN ns
                   ELSE AddUris(IF Head(us) \in Range(ns) THEN ns ELSE Append(ns, Head(us)), Tail(us))
Rets(ns, us) == LET after == AddUris(ns, us) IN [i \in DOMAIN us |-> IndexOf(after, us[i]) - 1]

----------------------------------------------------------------------------
(* what there is: nodes as <<id, class>>, the subtype relation as <<super, sub>> *)
BaseThere == {<<id, BNodes[id].cls>> : id \in BaseIds}
There(s) == Sorted(BaseThere \cup {<<n.id, n.cls>> : n \in Range(s.nodes)})
IdsOf(A) == Sorted({a[1] : a \in A})
BasePairs == UNION {{<<p, id>> : p \in BNodes[id].sup} : id \in BaseIds}
SubPairs(s) == Sorted(BasePairs \cup {<<r[4], r[1]>> : r \in {q \in s.refs : ~q[2] /\ q[3] = HasSubtype}})
RECURSIVE Below(_, _)
Below(S, P) == LET T == Sorted(S \cup {p[2] : p \in {q \in P : q[1] \in S}}) IN IF T = S THEN S ELSE Below(T, P)
Subtypes(s, root) == Below({root}, SubPairs(s))
(* C23: references are classified by what the server holds together with the file *)
SrvHier(s, fn) == Sorted(Hier(Subtypes(s, HierRoot), fn))
SrvKnown(s, fn) == Sorted(Subtypes(s, RefRoot) \cup KnownTypes(fn))
SrvSortOk(s, fn) == /\ UsedTypes(fn) \subseteq SrvKnown(s, fn)
                    /\ Acyclic(Edges(fn, SrvHier(s, fn)))

----------------------------------------------------------------------------
(* which nodes get added (C19, C20) *)
(* possible parents: for types the supertypes, for instances the reference to *)
(* ParentNodeId if there is one; else any inverse hierarchical reference      *)
(* (which of them is not determined)                                          *)
Inverse(fn, hier, n) == {r \in Range(HRefs(n, hier)) \cup UNION {Range(p) : p \in ParentRefs(fn, hier, n)} : ~r.f}
Parents(fn, hier, n) == LET i == Inverse(fn, hier, n)
                            m == IF n.cls \in TypeClasses THEN {r \in i : r.t = HasSubtype}
                                 ELSE {r \in i : n.par # NullId /\ r.g = n.par}
                        IN IF m # {} THEN m ELSE i
TypeDefOf(n) == LET t == TypeDefs(n) IN
    IF n.cls \notin {"Object", "Variable"} THEN NullId
    ELSE IF t # <<>> THEN t[1].g ELSE IF n.cls = "Variable" THEN BaseDataVariableType ELSE BaseObjectType
(* A: set of <<id, class>> that are there, T: usable reference types *)
ParentOk(n, r, A, T) == /\ \E k \in (IF n.cls \in TypeClasses THEN {n.cls} ELSE Classes) : <<r.g, k>> \in A
                        /\ r.t \in T
                        /\ n.cls \in TypeClasses => r.t = HasSubtype
(* nodes that may (any = TRUE) or have to be (any = FALSE) added next *)
CanAdd(n, ps, A, T, nns, any) ==
    /\ n.id # NullId /\ n.id[1] < nns
    /\ IF ps = {} THEN n.cls \in {"Object", "Variable"}
       ELSE IF any THEN \E r \in ps : ParentOk(n, r, A, T) ELSE \A r \in ps : ParentOk(n, r, A, T)
    /\ n.cls = "Object" => <<TypeDefOf(n), "ObjectType">> \in A
    /\ n.cls = "Variable" => <<TypeDefOf(n), "VariableType">> \in A
(* the least set that is closed under adding: no order of adding plays a role *)
RECURSIVE AddFix(_, _, _, _, _)
AddFix(todo, H, A, nns, any) ==    \* todo: set of <<node, parents>>; H: hierarchical reference types that are not abstract
    LET T == Sorted({t \in H : <<t, "ReferenceType">> \in A})
        new == {x \in todo : CanAdd(x[1], x[2], A, T, nns, any)}
    IN IF new = {} THEN A
       ELSE AddFix(todo \ new, H, Sorted(A \cup {<<x[1].id, x[1].cls>> : x \in new}), nns, any)
AbstractRefs(fn, s) == {id \in BaseIds : BNodes[id].abs} \cup {n.id : n \in {m \in Range(fn) : m.cls = "ReferenceType" /\ m.at["IsAbstract"] \in {"true", "1"}}}
                       \cup {n.id : n \in {m \in Range(s.nodes) : m.cls = "ReferenceType" /\ m.at["IsAbstract"] = "true"}}
(* short: only what is needed to decide *)
Short(n) == [id |-> n.id, cls |-> n.cls, refs |-> TypeDefs(n)]
TwiceIds(fn) == LET all == [i \in DOMAIN fn |-> fn[i].id] ids == Sorted(Range(all))
               IN IF Cardinality(ids) = Len(fn) THEN {} ELSE {id \in ids : Cardinality({i \in DOMAIN all : all[i] = id}) > 1}
Added(s, fn, hier, nns, any) ==
    LET A == There(s)
        have == IdsOf(A)
        dups == TwiceIds(fn)
        decl == {<<Short(fn[i]), Parents(fn, hier, fn[i])>> : i \in {j \in DOMAIN fn : fn[j].id \notin have}}
        \* which one of different declarations of a node counts is not determined
        todo == IF any THEN decl ELSE {x \in decl : x[1].id \notin dups \/ \A y \in decl : y[1].id = x[1].id => y = x}
    IN AddFix(todo, hier \ AbstractRefs(fn, s), A, nns, any) \ A

----------------------------------------------------------------------------
(* references in both directions (C19) *)
Both(s, f, t, g) == {<<s, f, t, g>>, <<g, ~f, t, s>>}
(* RT: reference types that exist, ids: nodes that exist; lo: only what is certain *)
DeclRefs(fn, hier, ids, RT, lo) ==
    LET dups == IF lo THEN TwiceIds(fn) ELSE {} IN
    UNION {UNION {Both(fn[i].id, r.f, r.t, r.g) : r \in {q \in
            {x \in Range(fn[i].refs) : ~IsTypeDef(fn[i], x)}
            \cup (LET P == ParentRefs(fn, hier, fn[i]) IN IF lo /\ Cardinality(P) > 1 THEN {} ELSE UNION {Range(p) : p \in P})
          : q.g \in ids /\ q.t \in RT /\ (fn[i].id \in dups => \A k \in DOMAIN fn : fn[k].id = fn[i].id => q \in Range(fn[k].refs))}} : i \in {j \in DOMAIN fn : fn[j].id \in ids}}
TypeDefRefs(fn, added, lo) == LET dups == IF lo THEN TwiceIds(fn) ELSE {} IN
                        UNION {IF <<fn[i].id, fn[i].cls>> \in added /\ fn[i].id \notin dups /\ fn[i].cls \in {"Object", "Variable"}
                                 THEN Both(fn[i].id, TRUE, HasTypeDefinition, TypeDefOf(fn[i])) ELSE {} : i \in DOMAIN fn}

----------------------------------------------------------------------------
(* data types (C21) *)
(* T: id -> data type record, for the types of the host and the registered ones *)
(* P: <<super, sub>> between data types, Abs: abstract data types             *)
Known0 == {<<0, "i=" \o ToString(k)>> : k \in 1..29} \cup {OptionSet}
Supers(id, P) == {p[1] : p \in {q \in P : q[2] = id}}
(* the type of namespace 0 that decides what a data type is; NullId: not determined *)
RECURSIVE BaseOf(_, _, _)
BaseOf(id, P, k) == IF id \in Known0 THEN id
                    ELSE LET u == Supers(id, P) IN IF Cardinality(u) # 1 \/ k = 0 THEN NullId
                                                   ELSE BaseOf(CHOOSE p \in u : TRUE, P, k - 1)
IsStructBase(b) == b \in {Structure, OptionSet}
StructKinds == {"Structure", "OptStruct", "Union"}
BuiltinAl == [kind \in {BTypes[id].kind : id \in DOMAIN BTypes} \ StructKinds |->
                LET id == CHOOSE i \in DOMAIN BTypes : BTypes[i].kind = kind IN [al |-> BTypes[id].al, size |-> BTypes[id].size, pf |-> BTypes[id].pf]]
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Max(x, MaxOf(S \ {x}))
Up(n, al) == ((n + al - 1) \div al) * al
PtrSize == 8
(* alignments of all types: a structure is aligned like its strictest member *)
MAlign(AL, m) == IF m.a \/ m.o THEN PtrSize ELSE IF m.t \in DOMAIN AL THEN AL[m.t] ELSE 1
RECURSIVE AlignFix(_, _)
AlignFix(T, AL) ==
    LET B == TLCEval([id \in DOMAIN T |->
                IF T[id].kind \in StructKinds
                THEN MaxOf({IF T[id].kind = "Union" THEN 4 ELSE 1} \cup {MAlign(AL, T[id].m[i]) : i \in DOMAIN T[id].m})
                ELSE AL[id]])
    IN IF B = AL THEN AL ELSE AlignFix(T, B)
Aligns(T) == AlignFix(T, TLCEval([id \in DOMAIN T |-> IF T[id].kind \in StructKinds THEN 1 ELSE BuiltinAl[T[id].kind].al]))
MSize(T, m) == IF m.a THEN 2 * PtrSize ELSE IF m.o THEN PtrSize ELSE T[m.t].size
(* where a C compiler puts the members: sequence of paddings, and the size *)
RECURSIVE Place(_, _, _, _, _)
Place(T, AL, ms, off, acc) ==
    IF ms = <<>> THEN [pads |-> acc, end |-> off]
    ELSE LET o == Up(off, MAlign(AL, Head(ms)))
         IN Place(T, AL, Tail(ms), o + MSize(T, Head(ms)), Append(acc, o - off))
Layout(T, AL, t) ==
    LET al == AL[t.id] IN
    IF t.kind = "Union"
    THEN LET o == Up(4, al) IN [pads |-> [i \in DOMAIN t.m |-> o], size |-> Up(o + MaxOf({MSize(T, t.m[i]) : i \in DOMAIN t.m}), al)]
    ELSE LET p == Place(T, AL, t.m, 0, <<>>) IN [pads |-> p.pads, size |-> Up(p.end, al)]
LayoutKnown(T, t) == t.m # <<>> /\ \A i \in DOMAIN t.m : t.m[i].t \in DOMAIN T /\ (T[t.m[i].t].kind \in StructKinds => T[t.m[i].t].m # <<>>)
NoPointers(T, t) == \A i \in DOMAIN t.m : ~t.m[i].a /\ ~t.m[i].o /\ (t.m[i].t \in DOMAIN T => T[t.m[i].t].pf)
(* types that a field can have: set of ids; fields by value, for cycles *)
ByValue(dts) == UNION {{<<n.id, n.def.f[i].dt>> : i \in {j \in DOMAIN n.def.f : n.def.f[j].vr < 0 /\ ~n.def.f[j].opt}} : n \in dts}
(* data types that would contain themselves, or a type that does; a subtype contains what its supertype does *)
Unfounded(dts, P) == LET E == CoreUp(ByValue(dts) \cup {<<p[2], p[1]>> : p \in {q \in P : \E n \in dts : n.id = q[2]}}) IN {e[1] : e \in E}
(* no type contains itself *)
Contains(T) == UNION {{<<id, T[id].m[i].t>> : i \in {j \in DOMAIN T[id].m : ~T[id].m[j].a /\ ~T[id].m[j].o}} : id \in DOMAIN T}
FieldTypes(dt, T, Abs, Cyc) == IF dt \in DOMAIN BTypes THEN {dt}
                               ELSE IF dt[1] = 0 \/ dt \in Abs THEN {VariantType}
                               ELSE IF dt \in Cyc THEN {dt, VariantType}
                               ELSE IF dt \in DOMAIN T THEN {dt} ELSE {}      \* unknown: anything
(* the members that t has to have: inherited ones first *)
Inherited(id, T, P) == LET u == {p \in Supers(id, P) : p # Structure /\ p \in DOMAIN T} IN
    IF Cardinality(u) # 1 THEN <<>> ELSE T[CHOOSE p \in u : TRUE].m
(* the fields of enumerations and option sets are names of values *)
OwnFields(n, b) == IF n.def.enum \/ b = OptionSet THEN <<>> ELSE n.def.f
MembersOk(n, t, b, T, P, Abs, Cyc) ==
    LET inh == Inherited(n.id, T, P)
        own == OwnFields(n, b)
    IN /\ Len(t.m) = Len(inh) + Len(own)
       /\ \A i \in DOMAIN inh : LET a == t.m[i] h == inh[i] IN a.n = h.n /\ (a.t = h.t \/ (n.id \in Cyc /\ VariantType \in {a.t, h.t})) /\ a.a = h.a /\ a.o = h.o
       /\ \A j \in DOMAIN own :
            LET a == t.m[Len(inh) + j]
                f == own[j]
                ft == FieldTypes(f.dt, T, Abs, Cyc)
            IN Norm(a.n) = Norm(f.n) /\ (ft = {} \/ a.t \in ft) /\ a.a = (f.vr >= 0) /\ a.o = f.opt
KindOf(n, t, b) == IF b = Enumeration THEN "Enum"
                   ELSE IF IsStructBase(b) THEN IF n.def.union THEN "Union"
                                                ELSE IF \E i \in DOMAIN t.m : t.m[i].o THEN "OptStruct" ELSE "Structure"
                   ELSE IF b \in DOMAIN BTypes THEN BTypes[b].kind ELSE "Variant"
(* encs: the references from nodes with the browse name Default Binary *)
EncOk(n, t, b, encs) ==
    LET e == {x.g : x \in {y \in encs : y.s = n.id}}
        w == {x.g : x \in {y \in Range(n.refs) : y.f /\ y.t = HasEncoding}}
    IN IF b = Enumeration THEN t.enc = NullId
       ELSE IF IsStructBase(b) THEN t.enc \in (IF e # {} THEN e ELSE IF w # {} THEN w ELSE {NullId})
       ELSE t.enc = (IF b \in DOMAIN BTypes THEN BTypes[b].enc ELSE BTypes[VariantType].enc)

----------------------------------------------------------------------------
(* values (C22): d as in Meaning!Data, t a type record of T                    *)
(* The lexical tables say what a text means: X.lex[kind][text] is the          *)
(* canonical text of the value, "!" if the text stands for no value.           *)
Wide == [StatusCode |-> "UInt32"]
LexKind(k) == IF k \in DOMAIN Wide THEN Wide[k] ELSE k
ZeroOf == [Boolean |-> "false", Float |-> "00000000", Double |-> "0000000000000000", String |-> NULL, ByteString |-> "",
           Guid |-> "00000000-0000-0000-0000-000000000000"]
Zero(k) == IF k \in DOMAIN ZeroOf THEN ZeroOf[k] ELSE "0"
TextKinds == {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String",
              "DateTime", "ByteString", "Enum"}
Parts == [NodeId |-> <<"Identifier">>, QualifiedName |-> <<"NamespaceIndex", "Name">>, LocalizedText |-> <<"Locale", "Text">>,
          Guid |-> <<"String">>, StatusCode |-> <<"Code">>]
Child(d, n) == IF d.k # "c" THEN <<>> ELSE SelectSeq(d.m, LAMBDA x : x.n = n)
Empty(d) == d.k = "p" /\ Norm(d.v) = NULL
PartText(d, n) == LET c == Child(d, n) IN IF c = <<>> THEN NULL ELSE Norm(c[1].v)
(* "yes": stands for a value, "no": for none, "open": not specified *)
Worst(S) == IF "no" \in S THEN "no" ELSE IF "open" \in S THEN "open" ELSE "yes"
TextRepr(X, kind, s) == IF s = NULL THEN "yes"
                        ELSE IF kind = "String" THEN "yes"
                        ELSE IF kind = "NodeId" THEN IF s \in DOMAIN X.ids THEN "yes" ELSE "open"
                        ELSE IF s \notin DOMAIN X.lex[kind] THEN "open" ELSE IF X.lex[kind][s] = "!" THEN "no" ELSE "yes"
PartKind == [Identifier |-> "NodeId", NamespaceIndex |-> "UInt16", Name |-> "String", Locale |-> "String", Text |-> "String",
             String |-> "Guid", Code |-> "UInt32"]
RECURSIVE Repr(_, _, _, _)
ReprMember(X, T, m, d) ==
    IF m.t \notin DOMAIN T THEN "open"
    ELSE IF ~m.a THEN Repr(X, T, T[m.t], d)
    ELSE IF d.k = "p" THEN IF Empty(d) THEN "yes" ELSE "no"
    ELSE Worst({Repr(X, T, T[m.t], d.m[i]) : i \in DOMAIN d.m})
Repr(X, T, t, d) ==
    IF t.kind \in TextKinds THEN IF d.k = "c" THEN "no" ELSE TextRepr(X, LexKind(t.kind), Norm(d.v))
    ELSE IF t.kind \in DOMAIN Parts THEN
        IF d.k = "p" THEN IF Empty(d) THEN "yes" ELSE "no"
        ELSE Worst({LET c == Child(d, Parts[t.kind][i]) IN IF c = <<>> THEN "yes" ELSE IF c[1].k = "c" THEN "no"
                      ELSE TextRepr(X, PartKind[Parts[t.kind][i]], Norm(c[1].v)) : i \in DOMAIN Parts[t.kind]}
                   \cup (IF t.kind = "NodeId" /\ PartText(d, "Identifier") \in DOMAIN X.ids /\ X.ids[PartText(d, "Identifier")][1] > X.nuri THEN {"open"} ELSE {})
                   \cup (IF t.kind = "QualifiedName" /\ PartText(d, "NamespaceIndex") \in DOMAIN X.ints /\ X.ints[PartText(d, "NamespaceIndex")] > X.nuri THEN {"open"} ELSE {}))
    ELSE IF t.kind \in {"Structure", "OptStruct"} THEN
        IF d.k = "p" THEN IF Empty(d) THEN "yes" ELSE "no"
        ELSE Worst({LET c == Child(d, t.m[i].n) IN IF c = <<>> THEN "yes" ELSE ReprMember(X, T, t.m[i], c[1]) : i \in DOMAIN t.m})
    ELSE IF t.kind = "Union" THEN
        IF d.k = "p" THEN IF Empty(d) THEN "yes" ELSE "no"
        ELSE LET s == PartText(d, "SwitchField") IN
             IF s = NULL THEN "yes"
             ELSE IF s \notin DOMAIN X.ints THEN "open"
             ELSE LET k == X.ints[s] IN
                  IF k = 0 THEN "yes" ELSE IF k \notin DOMAIN t.m THEN "no"
                  ELSE LET c == Child(d, t.m[k].n) IN IF c = <<>> THEN "yes" ELSE ReprMember(X, T, t.m[k], c[1])
    ELSE "no"
TextOf(X, kind, s) == IF s = NULL THEN Zero(kind) ELSE IF kind = "String" THEN s ELSE X.lex[LexKind(kind)][s]
None == [k |-> "p", n |-> "", v |-> NULL, m |-> <<>>]
RECURSIVE Match(_, _, _, _, _)
MatchMember(X, T, m, c, g) ==      \* c: <<>> or the element, g: [n, a, h, v]
    /\ g.n = m.n /\ g.a = m.a
    /\ IF m.a THEN LET d == IF c = <<>> THEN None ELSE c[1] IN
                   IF d.k = "p" THEN g.v = <<>>
                   ELSE Len(g.v) = Len(d.m) /\ \A i \in DOMAIN d.m : Match(X, T, T[m.t], d.m[i], g.v[i])
       ELSE IF m.o /\ c = <<>> THEN ~g.h
       ELSE g.h /\ Len(g.v) = 1 /\ (m.t \in DOMAIN T => Match(X, T, T[m.t], IF c = <<>> THEN None ELSE c[1], g.v[1]))
Match(X, T, t, d, g) ==
    /\ g.k = t.kind
    /\ IF t.kind \in TextKinds THEN g.s = TextOf(X, t.kind, Norm(d.v))
       ELSE IF t.kind \in {"Guid", "StatusCode"} THEN g.s = TextOf(X, t.kind, PartText(d, Parts[t.kind][1]))
       ELSE IF t.kind = "NodeId" THEN g.i = (IF PartText(d, "Identifier") = NULL THEN NullId ELSE Tr(X.rets, X.ids[PartText(d, "Identifier")]))
       ELSE IF t.kind = "QualifiedName" THEN
            LET n == PartText(d, "NamespaceIndex") IN
            g.i = Tr(X.rets, <<IF n = NULL THEN 0 ELSE X.ints[n], PartText(d, "Name")>>)
       ELSE IF t.kind = "LocalizedText" THEN g.l = <<PartText(d, "Locale"), PartText(d, "Text")>>
       ELSE IF t.kind \in {"Structure", "OptStruct"} THEN
            /\ Len(g.m) = Len(t.m)
            /\ \A i \in DOMAIN t.m : MatchMember(X, T, t.m[i], Child(d, t.m[i].n), g.m[i])
       ELSE IF t.kind = "Union" THEN
            LET s == PartText(d, "SwitchField")
                k == IF s = NULL THEN 0 ELSE X.ints[s]
            IN IF k = 0 THEN g.m = <<>>
               ELSE Len(g.m) = 1 /\ MatchMember(X, T, t.m[k], Child(d, t.m[k].n), g.m[1])
       ELSE TRUE
(* the type of the value of a variable: <<>> none, two elements: not determined, else the type record *)
ByName(name) == {BTypes[id] : id \in {i \in DOMAIN BTypes : BTypes[i].name = name /\ i \in Known0}}
ValueType(n, T, P, there) ==
    LET b == BaseOf(n.dt, P, 64)
        own == IF n.dt \in DOMAIN T /\ T[n.dt].kind # "Variant" THEN <<T[n.dt]>>
               ELSE IF n.dt \notin DOMAIN T /\ b \in DOMAIN BTypes /\ BTypes[b].kind # "Variant" THEN <<BTypes[b]>> ELSE <<>>
        byn == ByName(n.val.type)
    IN IF n.dt \notin DOMAIN T /\ (<<n.dt, "DataType">> \notin there \/ b = NullId) THEN <<"?", "?">>
       ELSE IF own # <<>> THEN own
       ELSE IF Cardinality(byn) = 1 THEN <<CHOOSE x \in byn : TRUE>> ELSE <<>>
NoSrvValue(v) == ~v.has
ValueOk(X, n, T, P, there, v) ==
    LET vt == ValueType(n, T, P, there)
        d == n.val.data
    IN IF ~n.val.has \/ d.k = "none" THEN ~v.has
       ELSE IF vt = <<>> THEN ~v.has
       ELSE IF Len(vt) = 2 THEN TRUE
       ELSE LET t == vt[1]
                r == IF n.val.arr THEN Worst({Repr(X, T, t, d.m[i]) : i \in DOMAIN d.m}) ELSE Repr(X, T, t, d)
            IN IF r = "open" THEN TRUE
               ELSE IF r = "no" THEN ~v.has
               ELSE /\ v.has /\ v.arr = n.val.arr /\ v.t = t.id
                    /\ IF n.val.arr THEN Len(v.v) = Len(d.m) /\ \A i \in DOMAIN d.m : Match(X, T, t, d.m[i], v.v[i])
                       ELSE Len(v.v) = 1 /\ Match(X, T, t, d, v.v[1])
(* array dimensions of variables and variable types *)
DimsOf(X, n) ==
    LET decl == Norm(n.at["ArrayDimensions"])
        rank == n.at["ValueRank"]
        arr == n.val.has /\ n.val.arr
    IN IF decl # NULL THEN IF decl \in DOMAIN X.dims THEN {X.dims[decl]} ELSE {}      \* {}: not specified
       ELSE IF rank \notin DOMAIN X.lex.Int32 THEN {}
       ELSE {<<>>} \cup (IF n.cls = "VariableType" THEN IF X.lex.Int32[rank] \in X.neg THEN {} ELSE {<<"0">>}
                         ELSE IF X.lex.Int32[rank] = "1" THEN {<<"0">>} ELSE {})
            \cup (IF arr THEN {<<ToString(Len(n.val.data.m))>>} ELSE {})
AttrKind == [EventNotifier |-> "Byte", IsAbstract |-> "Boolean", ValueRank |-> "Int32", AccessLevel |-> "Byte", UserAccessLevel |-> "Byte",
             Historizing |-> "Boolean", MinimumSamplingInterval |-> "Double", Executable |-> "Boolean", UserExecutable |-> "Boolean",
             Symmetric |-> "Boolean", ContainsNoLoops |-> "Boolean"]
AttrOk(X, n, at) == \A a \in DOMAIN n.at \ {"ArrayDimensions"} :
    LET k == AttrKind[a] IN n.at[a] \notin DOMAIN X.lex[k] \/ at[a] = X.lex[k][n.at[a]]
=============================================================================
