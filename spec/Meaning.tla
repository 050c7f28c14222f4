------------------------------ MODULE Meaning ------------------------------
(* What a nodeset document means: the declarative half of the specification.  *)
(*                                                                            *)
(* A document is the tree of its elements; an element (or piece of text) is   *)
(*   [e |-> name ("" for text), a |-> attributes, c |-> content, x |-> text]  *)
(* The lexical level (how an id or a number is spelled) is given by tables:   *)
(*   X.ids[s]  = <<index, id>>   for every text s that is a NodeId            *)
(*   X.bns[s]  = <<index, name>> for every BrowseName text s                  *)
(*   X.ints[s] = the number that s denotes                                    *)
(* so everything here is about structure, scoping, defaults and resolution.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NULL == "<null>"                    \* how the harness shows an absent text
NullId == <<0, "i=0">>
HasComponent == <<0, "i=47">>
HasTypeDefinition == <<0, "i=40">>
HasEncoding == <<0, "i=38">>

Norm(s) == IF s = "" THEN NULL ELSE s
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))
(* concatenation that does not recurse per element for long sequences *)
RECURSIVE Flat(_, _, _)
Flat(ss, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN ss[lo]
                    ELSE LET m == (lo + hi) \div 2 IN Flat(ss, lo, m) \o Flat(ss, m + 1, hi)
Concat(ss) == Flat(ss, 1, Len(ss))
RECURSIVE Join(_, _, _)
Join(ss, lo, hi) == IF lo > hi THEN "" ELSE IF lo = hi THEN ss[lo]
                    ELSE LET m == (lo + hi) \div 2 IN Join(ss, lo, m) \o Join(ss, m + 1, hi)
(* TLC searches an enumerated set in logarithmic time once it has counted it *)
Sorted(S) == LET E == {x \in S : TRUE} IN IF Cardinality(E) >= 0 THEN E ELSE {}
Bag(s) == LET R == Range(s) IN IF Cardinality(R) = Len(s) THEN [v \in R |-> 1]
                             ELSE [v \in R |-> Cardinality({i \in DOMAIN s : s[i] = v})]

----------------------------------------------------------------------------
(* elements *)
Attr(el, n, d) == IF n \in DOMAIN el.a THEN el.a[n] ELSE d
IsText(k) == k.e = ""
Elems(el) == SelectSeq(el.c, LAMBDA k : k.e # "")
Kids(el, n) == SelectSeq(el.c, LAMBDA k : k.e = n)
(* the character data of an element: the text directly inside of it *)
Text(el) == LET t == SelectSeq(el.c, IsText)
                s == [i \in DOMAIN t |-> t[i].x]
            IN IF t = <<>> THEN NULL ELSE Join(s, 1, Len(s))
Blank(s) == s = NULL \/ \A i \in 1..Len(s) : SubSeq(s, i, i) \in {" ", "\t", "\n", "\r"}

(* elements that only group others at the top level *)
Grouping == {"UANodeSet", "Aliases", "Extensions"}
RECURSIVE TopItems(_)
TopItems(els) == Concat([i \in DOMAIN els |-> IF els[i].e \in Grouping
                            THEN TopItems(Elems(els[i])) ELSE <<els[i]>>])
ClassOf == [UAObject |-> "Object", UAObjectType |-> "ObjectType", UAVariable |-> "Variable",
            UADataType |-> "DataType", UAMethod |-> "Method", UAReferenceType |-> "ReferenceType",
            UAVariableType |-> "VariableType", UAView |-> "View"]
Classes == {ClassOf[e] : e \in DOMAIN ClassOf}
InstanceClasses == {"Object", "Variable", "Method", "View"}
Top(doc) == TopItems(<<doc>>)
NodeElems(doc) == SelectSeq(Top(doc), LAMBDA k : k.e \in DOMAIN ClassOf)

----------------------------------------------------------------------------
(* namespaces and aliases of a file (C04, C05) *)
Texts(els) == [j \in DOMAIN els |-> Text(els[j])]
Uris(doc) == LET t == SelectSeq(Top(doc), LAMBDA k : k.e = "NamespaceUris")
             IN Concat([i \in DOMAIN t |-> Texts(Kids(t[i], "Uri"))])
(* rets[i]: index that the host gave to the i-th URI of the file *)
Tr(rets, id) == IF id[1] \in 1..Len(rets) THEN <<rets[id[1]], id[2]>> ELSE id
ParseId(X, s) == IF s \in DOMAIN X.ids THEN X.ids[s] ELSE NullId
PlainId(X, rets, s) == Tr(rets, ParseId(X, s))
(* the first declaration of a name counts *)
AliasTable(X, doc, rets) ==
    LET al == SelectSeq(Top(doc), LAMBDA k : k.e = "Alias" /\ "Alias" \in DOMAIN k.a)
        names == {al[i].a["Alias"] : i \in DOMAIN al}
        first(n) == CHOOSE i \in DOMAIN al : al[i].a["Alias"] = n /\ \A j \in 1..(i - 1) : al[j].a["Alias"] # n
    IN [n \in names |-> PlainId(X, rets, Text(al[first(n)]))]
(* an id written as alias name or as NodeId *)
AnyId(X, F, s) == IF s \in DOMAIN F.al THEN F.al[s] ELSE PlainId(X, F.rets, s)
FileCtx(X, doc, rets) == [rets |-> rets, al |-> AliasTable(X, doc, rets)]

----------------------------------------------------------------------------
(* attributes and defaults (C08) *)
True(s) == s \in {"true", "1"}
AttrDefaults == [
    Object |-> [EventNotifier |-> "0"],
    ObjectType |-> [IsAbstract |-> "false"],
    Variable |-> [ArrayDimensions |-> "", ValueRank |-> "-1", AccessLevel |-> "1", UserAccessLevel |-> "1",
                  Historizing |-> "false", MinimumSamplingInterval |-> "-1"],
    DataType |-> [IsAbstract |-> "false"],
    Method |-> [Executable |-> "true", UserExecutable |-> "true"],
    ReferenceType |-> [IsAbstract |-> "false", Symmetric |-> "false"],
    VariableType |-> [IsAbstract |-> "false", ArrayDimensions |-> "", ValueRank |-> "-1"],
    View |-> [ContainsNoLoops |-> "false", EventNotifier |-> "0"]]
Attrs(cls, el) == [n \in DOMAIN AttrDefaults[cls] |-> Attr(el, n, AttrDefaults[cls][n])]
(* the last element counts *)
LText(el, n) == LET k == Kids(el, n) IN
    IF k = <<>> THEN <<NULL, NULL>> ELSE <<Attr(k[Len(k)], "Locale", NULL), Text(k[Len(k)])>>

----------------------------------------------------------------------------
(* references (C07) *)
RefElems(el) == LET k == Kids(el, "References") IN Concat([i \in DOMAIN k |-> Kids(k[i], "Reference")])
Ref(X, F, r) == [f |-> True(Attr(r, "IsForward", "true")),
                 t |-> AnyId(X, F, Attr(r, "ReferenceType", NULL)),
                 g |-> AnyId(X, F, Text(r))]
RefsOf(X, F, el) == LET r == RefElems(el) IN [i \in DOMAIN r |-> Ref(X, F, r[i])]

----------------------------------------------------------------------------
(* values (C11): [k: "none"/"p"/"c", n: name, v: text, m: members] *)
NoData == [k |-> "none", n |-> "", v |-> "", m |-> <<>>]
RECURSIVE Data(_)
Data(el) == LET k == Elems(el) IN
    IF k = <<>> THEN [k |-> "p", n |-> el.e, v |-> IF Blank(Text(el)) THEN NULL ELSE Text(el), m |-> <<>>]
    ELSE [k |-> "c", n |-> el.e, v |-> "", m |-> [i \in DOMAIN k |-> Data(k[i])]]
BodyData(eo) == LET b == Kids(eo, "Body")
                    k == IF b = <<>> THEN <<>> ELSE Elems(b[1])
                IN IF k = <<>> THEN NoData ELSE Data(k[1])
(* the last identifier counts *)
TypeIds(eo) == LET t == Kids(eo, "TypeId") IN Concat([i \in DOMAIN t |-> Kids(t[i], "Identifier")])
TypeId(eos) == LET i == Concat([j \in DOMAIN eos |-> TypeIds(eos[j])])
               IN IF i = <<>> THEN NULL ELSE Text(i[Len(i)])
NoValue == [has |-> FALSE, arr |-> FALSE, eo |-> FALSE, type |-> "", data |-> NoData]
IsListName(n) == Len(n) >= 6 /\ SubSeq(n, 1, 6) = "ListOf"
ValueOf(el) ==
    LET vs == Kids(el, "Value")
        k == IF vs = <<>> THEN <<>> ELSE Elems(vs[Len(vs)])
    IN IF vs = <<>> THEN NoValue
       ELSE IF k = <<>> THEN [NoValue EXCEPT !.has = TRUE, !.type = NULL]
       ELSE LET v == k[1] IN
            IF v.e = "ExtensionObject"
            THEN [has |-> TRUE, arr |-> FALSE, eo |-> TRUE, type |-> TypeId(<<v>>), data |-> BodyData(v)]
            ELSE IF ~IsListName(v.e)
            THEN [has |-> TRUE, arr |-> FALSE, eo |-> FALSE, type |-> v.e, data |-> Data(v)]
            ELSE LET ms == Elems(v)
                     eo == ms # <<>> /\ ms[1].e = "ExtensionObject"
                     mem == IF eo THEN SelectSeq([i \in DOMAIN ms |-> BodyData(ms[i])], LAMBDA d : d.k # "none")
                            ELSE [i \in DOMAIN ms |-> Data(ms[i])]
                 IN [has |-> TRUE, arr |-> TRUE, eo |-> eo,
                     type |-> IF ms = <<>> THEN NULL ELSE IF eo THEN TypeId(ms) ELSE ms[1].e,
                     data |-> [k |-> "c", n |-> v.e, v |-> "", m |-> mem]]

----------------------------------------------------------------------------
(* data type definitions (C12) *)
NoDef == [has |-> FALSE, enum |-> FALSE, union |-> FALSE, optset |-> FALSE, f |-> <<>>]
Num(X, s) == IF s \in DOMAIN X.ints THEN X.ints[s] ELSE 0
Field(X, F, el) == IF "Value" \in DOMAIN el.a
    THEN [n |-> Attr(el, "Name", NULL), dt |-> NullId, vr |-> 0, v |-> Num(X, el.a["Value"]), opt |-> FALSE]
    ELSE [n |-> Attr(el, "Name", NULL), dt |-> AnyId(X, F, Attr(el, "DataType", "i=24")),
          vr |-> Num(X, Attr(el, "ValueRank", "-1")), v |-> 0, opt |-> True(Attr(el, "IsOptional", "false"))]
DefOf(X, F, el) == LET d == Kids(el, "Definition") IN
    IF d = <<>> THEN NoDef
    ELSE LET x == d[Len(d)]
             os == True(Attr(x, "IsOptionSet", "false"))
             fs == IF os THEN <<>> ELSE Kids(x, "Field")
         IN [has |-> TRUE, union |-> True(Attr(x, "IsUnion", "false")), optset |-> os,
             enum |-> \E i \in DOMAIN fs : "Value" \in DOMAIN fs[i].a,
             f |-> [i \in DOMAIN fs |-> Field(X, F, fs[i])]]

----------------------------------------------------------------------------
(* extensions (C14): the calls that hand over one extension *)
ExtElems(el) == LET k == Kids(el, "Extensions") IN Concat([i \in DOMAIN k |-> Kids(k[i], "Extension")])
(* the text between the last tag inside of el and the end of el *)
LastText(el) ==
    LET last == CHOOSE i \in 0..Len(el.c) : (i = 0 \/ el.c[i].e # "") /\ \A j \in (i + 1)..Len(el.c) : el.c[j].e = ""
        s == [i \in 1..(Len(el.c) - last) |-> el.c[last + i].x]
    IN IF s = <<>> THEN NULL ELSE Join(s, 1, Len(s))
AttrSet(el) == {<<n, el.a[n]>> : n \in DOMAIN el.a}
(* names of elements that lie around the whole content of el, the outermost first (only in deep documents) *)
Deep(el) == IF "deep" \in DOMAIN el THEN el.deep ELSE <<>>
RECURSIVE ExtCalls(_)
ExtCalls(el) == Concat([i \in DOMAIN el.c |-> IF el.c[i].e = "" THEN <<>>
    ELSE <<[ev |-> "xstart", n |-> el.c[i].e, a |-> AttrSet(el.c[i]), v |-> ""]>>
         \o [j \in DOMAIN Deep(el.c[i]) |-> [ev |-> "xstart", n |-> Deep(el.c[i])[j], a |-> {}, v |-> ""]]
         \o ExtCalls(el.c[i])
         \o LET D == Deep(el.c[i]) IN [j \in DOMAIN D |-> [ev |-> "xend", n |-> D[Len(D) + 1 - j], a |-> {}, v |-> IF j = 1 THEN LastText(el.c[i]) ELSE NULL]]
         \o <<[ev |-> "xend", n |-> el.c[i].e, a |-> {}, v |-> IF Deep(el.c[i]) = <<>> THEN LastText(el.c[i]) ELSE NULL]>>])
ExtCallsOf(ext) == <<[ev |-> "xnew", n |-> "", a |-> {}, v |-> ""]>> \o ExtCalls(ext)
                   \o <<[ev |-> "xfin", n |-> "", a |-> {}, v |-> ""]>>
NodeExtCalls(el) == LET x == ExtElems(el) IN Concat([j \in DOMAIN x |-> ExtCallsOf(x[j])])
DocExtCalls(doc) == LET ne == NodeElems(doc) IN Concat([i \in DOMAIN ne |-> NodeExtCalls(ne[i])])

----------------------------------------------------------------------------
(* a node as declared; refs are not yet classified *)
IdOrNull(X, rets, s) == IF s = NULL THEN NullId ELSE PlainId(X, rets, s)
BrowseName(X, rets, s) == IF s \in DOMAIN X.bns THEN Tr(rets, X.bns[s]) ELSE <<0, s>>
Node(X, F, el) ==
    LET cls == ClassOf[el.e]
    IN [cls |-> cls,
        id |-> IdOrNull(X, F.rets, Attr(el, "NodeId", NULL)),
        bn |-> BrowseName(X, F.rets, Attr(el, "BrowseName", NULL)),
        dn |-> LText(el, "DisplayName"), ds |-> LText(el, "Description"),
        inv |-> IF cls = "ReferenceType" THEN LText(el, "InverseName") ELSE <<NULL, NULL>>,
        at |-> Attrs(cls, el),
        par |-> IF cls \in InstanceClasses THEN IdOrNull(X, F.rets, Attr(el, "ParentNodeId", NULL)) ELSE NullId,
        dt |-> IF cls \in {"Variable", "VariableType"} THEN AnyId(X, F, Attr(el, "DataType", "i=24")) ELSE NullId,
        refs |-> RefsOf(X, F, el),
        val |-> IF cls = "Variable" THEN ValueOf(el) ELSE NoValue,
        def |-> IF cls = "DataType" THEN DefOf(X, F, el) ELSE NoDef,
        nx |-> Len(ExtElems(el))]
(* the nodes of a file in document order *)
FileNodes(X, doc, rets) == LET F == FileCtx(X, doc, rets)
                               ne == NodeElems(doc)
                           IN [i \in DOMAIN ne |-> Node(X, F, ne[i])]

----------------------------------------------------------------------------
(* classification of references (C06) *)
HierNs0 == {<<0, "i=33">>, <<0, "i=34">>, <<0, "i=35">>, <<0, "i=36">>, <<0, "i=44">>, <<0, "i=45">>,
            <<0, "i=46">>, <<0, "i=47">>, <<0, "i=48">>, <<0, "i=49">>}
(* Deviation of the built-in service, kept as it is: HasEncoding counts as    *)
(* hierarchical, so that data types come before their encoding objects.       *)
HierBuiltin == HierNs0 \cup {<<0, "i=38">>, <<0, "i=56">>, <<0, "i=129">>, <<0, "i=131">>, <<0, "i=14476">>,
            <<0, "i=15112">>, <<0, "i=15296">>, <<0, "i=15297">>, <<0, "i=16361">>, <<0, "i=16362">>,
            <<0, "i=17604">>, <<0, "i=18804">>, <<0, "i=18805">>}
HierBase(svc) == IF svc = "cust" THEN HierNs0 ELSE HierBuiltin
RefTypes(nodes) == {nodes[i] : i \in {j \in DOMAIN nodes : nodes[j].cls = "ReferenceType"}}
RECURSIVE HierFix(_, _)
HierFix(S, rts) == LET T == Sorted(S) \cup {n.id : n \in {m \in rts : \E i \in DOMAIN m.refs :
                                ~m.refs[i].f /\ m.refs[i].t \in S /\ m.refs[i].g \in S}}
                   IN IF T = S THEN S ELSE HierFix(T, rts)
Hier(base, nodes) == HierFix(base, RefTypes(nodes))
KnownTypes(nodes) == Sorted({n.id : n \in RefTypes(nodes)})
IsKnown(t, known) == t[1] = 0 \/ t \in known
UsedTypes(nodes) == UNION {{nodes[i].refs[j].t : j \in DOMAIN nodes[i].refs} : i \in DOMAIN nodes}
Resolved(nodes) == LET known == KnownTypes(nodes) IN \A t \in UsedTypes(nodes) : IsKnown(t, known)

IsTypeDef(n, r) == n.cls \in {"Object", "Variable"} /\ r.t = HasTypeDefinition
TypeDefs(n) == SelectSeq(n.refs, LAMBDA r : IsTypeDef(n, r))
HRefs(n, hier) == SelectSeq(n.refs, LAMBDA r : ~IsTypeDef(n, r) /\ r.t \in hier)
NRefs(n, hier) == SelectSeq(n.refs, LAMBDA r : ~IsTypeDef(n, r) /\ r.t \notin hier)

(* the reference added for a ParentNodeId (C07) *)
NeedsParentRef(n, hier) == /\ n.cls \in InstanceClasses /\ n.par # NullId
                           /\ \A i \in DOMAIN n.refs : n.refs[i].t \in hier /\ ~IsTypeDef(n, n.refs[i]) => n.refs[i].f
(* types of the forward hierarchical references of p to the node id *)
ForwardTypes(p, hier, id) ==
    {p.refs[j].t : j \in {k \in DOMAIN p.refs : p.refs[k].f /\ p.refs[k].g = id /\ p.refs[k].t \in hier /\ ~IsTypeDef(p, p.refs[k])}}
ParentRefs(nodes, hier, n) ==
    IF ~NeedsParentRef(n, hier) THEN {<<>>}
    ELSE LET ps == {k \in DOMAIN nodes : nodes[k].id = n.par}
             Or(ts) == IF ts = {} THEN {HasComponent} ELSE ts
             ts == IF ps = {} THEN {HasComponent} ELSE UNION {Or(ForwardTypes(nodes[k], hier, n.id)) : k \in ps}
         IN {<<[f |-> FALSE, t |-> t, g |-> n.par]>> : t \in ts}

----------------------------------------------------------------------------
(* hierarchy (C02, C03): <<parent, child>> *)
EdgesOf(n, hier) ==
    {IF n.refs[i].f THEN <<n.id, n.refs[i].g>> ELSE <<n.refs[i].g, n.id>> :
        i \in {k \in DOMAIN n.refs : n.refs[k].t \in hier /\ ~IsTypeDef(n, n.refs[k])}}
    \cup (IF NeedsParentRef(n, hier) THEN {<<n.par, n.id>>} ELSE {})
Edges(nodes, hier) == {e \in UNION {EdgesOf(nodes[i], hier) : i \in DOMAIN nodes} : e[1] # e[2]}
(* what remains of the edges when nodes without parents are taken away again and again *)
RECURSIVE Core(_)
Core(E) == LET kids == Sorted({e[2] : e \in E})
               R == {e \in E : e[1] \in kids}
           IN IF R = E THEN E ELSE Core(R)
Acyclic(E) == Core(E) = {}
(* ids on a cycle *)
RECURSIVE CoreUp(_)
CoreUp(E) == LET pars == Sorted({e[1] : e \in E})
                 R == {e \in E : e[2] \in pars}
             IN IF R = E THEN E ELSE CoreUp(R)
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == Sorted(S \cup {e[2] : e \in {d \in E : d[1] \in S}}) IN IF T = S THEN S ELSE Reach(E, T)
(* v is on a cycle iff it reaches itself, and so are the nodes that v reaches and that reach v *)
RECURSIVE CycleNodes(_)
CycleNodes(E) ==
    IF E = {} THEN {}
    ELSE LET v == (CHOOSE e \in E : TRUE)[1]
             F == Reach(E, {e[2] : e \in {d \in E : d[1] = v}})
             B == {e[2] : e \in E} \cap Reach({<<e[2], e[1]>> : e \in E}, {v})
             S == IF v \in F THEN F \cap B ELSE {}
         IN S \cup CycleNodes(CoreUp(Core({e \in E : e[1] \notin S \cup {v} /\ e[2] \notin S \cup {v}})))
OnCycle(E) == CycleNodes(CoreUp(Core(E)))
SortOk(svc, nodes) == LET hier == Sorted(Hier(HierBase(svc), nodes)) IN Resolved(nodes) /\ Acyclic(Edges(nodes, hier))

----------------------------------------------------------------------------
(* encodings (C13) *)
EncRefs(nodes) == Concat([i \in DOMAIN nodes |->
    LET n == nodes[i]
        rs == SelectSeq(n.refs, LAMBDA r : r.t = HasEncoding /\ ~r.f)
    IN IF n.bn[2] # "Default Binary" THEN <<>> ELSE [j \in DOMAIN rs |-> [s |-> rs[j].g, t |-> HasEncoding, g |-> n.id]]])
=============================================================================
