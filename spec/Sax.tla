-------------------------------- MODULE Sax --------------------------------
(* The import of a file as the state machine it is: a stream of start tags,   *)
(* texts and end tags drives an automaton (NodesetLoader.c) and, inside of a  *)
(* value, a second one (Value.c). Every document up to a bound is built step  *)
(* by step together with what the automata make of it; at its end this has to *)
(* be what the document means (Meaning.tla). The documents are printed and    *)
(* replayed on the real loader.                                               *)
EXTENDS Meaning, Json

CONSTANTS Scope,        \* what the documents vary: "node", "value", "ext", "top"
          MaxElems,     \* elements below the fixed beginning
          MaxWild,      \* of these, elements at a place where they are not known
          TextMode      \* "all": text in every gap, "none", "free": any
VARIABLES path,         \* open elements, outermost first, with their content so far
          m,            \* the automaton
          n, wild
vars == <<path, m, n, wild>>

----------------------------------------------------------------------------
(* which elements are known below which *)
NodeNames == {"UAObject", "UAVariable", "UADataType", "UAReferenceType"}
Normal(e) == CASE e = "UANodeSet" -> {"NamespaceUris", "Aliases", "Alias", "UAObject", "UADataType", "Extensions"}
    [] e = "NamespaceUris" -> {"Uri"}
    [] e = "Aliases" -> {"Alias"}
    [] e \in NodeNames -> {"DisplayName", "Description", "References", "InverseName", "Value", "Extensions"}
                          \cup (IF e = "UADataType" THEN {"Definition"} ELSE {})
    [] e = "References" -> {"Reference"}
    [] e = "Definition" -> {"Field"}
    [] e = "Extensions" -> {"Extension"}
    [] e = "Extension" -> {"Foo"}
    [] e = "Value" -> {"Int32", "ListOfInt32", "ExtensionObject"}
    [] OTHER -> {}
InValue(e) == CASE e = "Value" -> {"Int32", "ListOfInt32", "ExtensionObject", "ListOfExtensionObject"}
    [] e = "ListOfInt32" -> {"Int32"}
    [] e = "ListOfExtensionObject" -> {"ExtensionObject"}
    [] e = "ExtensionObject" -> {"TypeId", "Body"}
    [] e = "TypeId" -> {"Identifier"}
    [] e = "Body" -> {"S"}
    [] e = "S" -> {"Int32", "S", "ExtensionObject", "ListOfInt32"}
    [] OTHER -> {}
InExt(e) == CASE e \in NodeNames -> {"Extensions"} [] e = "Extensions" -> {"Extension"} [] e = "Extension" -> {"a", "Extension", "Value"}
    [] e \in {"a", "Value"} -> {"a"} [] OTHER -> {}
InTop(e) == CASE e = "UANodeSet" -> Normal(e) [] e = "NamespaceUris" -> {"Uri"} [] e \in {"Aliases", "Extensions"} -> {"Alias"}
    [] e \in NodeNames -> {"DisplayName"} [] OTHER -> {}
Known(e) == CASE Scope = "node" -> Normal(e) [] Scope = "value" -> InValue(e) [] Scope = "ext" -> InExt(e) [] OTHER -> InTop(e)
Wilds == CASE Scope = "node" -> {"Foo", "DisplayName", "Description", "References", "Reference", "InverseName", "Value", "Definition", "Field",
                                 "Extensions", "Extension", "UAObject", "Int32"}
    [] Scope = "value" -> {"Foo", "Int32", "S", "ListOfInt32", "ExtensionObject", "TypeId", "Body", "Identifier", "Value"}
    [] Scope = "ext" -> {"Foo", "Extensions", "Extension", "Value", "UAObject", "DisplayName"}
    [] OTHER -> {"Foo", "Uri", "NamespaceUris", "Alias", "Aliases", "UAObject", "DisplayName", "UANodeSet", "Extensions"}
Starts == CASE Scope = "node" -> {<<"UANodeSet", x>> : x \in NodeNames}
    [] Scope = "value" -> {<<"UANodeSet", "UAVariable", "Value">>}
    [] Scope = "ext" -> {<<"UANodeSet", "UAObject">>}
    [] OTHER -> {<<"UANodeSet">>}

----------------------------------------------------------------------------
(* the automaton of values *)
NoPtr == <<-1>>
Prim(name) == [k |-> "p", n |-> name, v |-> NULL, m |-> <<>>]
NewVal == [st |-> "init", arr |-> FALSE, eo |-> FALSE, type |-> NULL, has |-> FALSE, data |-> Prim(""), cur |-> NoPtr, body |-> FALSE, skip |-> 0]
RECURSIVE AtPath(_, _)
AtPath(d, p) == IF p = <<>> THEN d ELSE AtPath(d.m[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(d, p, x) == IF p = <<>> THEN x ELSE [d EXCEPT !.m[Head(p)] = Put(@, Tail(p), x)]
Root(v, name, kind) == [v EXCEPT !.has = TRUE, !.data = [Prim(name) EXCEPT !.k = kind], !.cur = <<>>]
Member(v, name) == LET o == AtPath(v.data, v.cur)
                   IN [v EXCEPT !.data = Put(@, v.cur, [o EXCEPT !.k = "c", !.m = Append(@, Prim(name))]),
                                !.cur = Append(@, Len(o.m) + 1)]
Grow(v, name) == IF v.cur = NoPtr THEN Root(v, name, "p") ELSE Member(v, name)
VStart(v, name) == CASE
    v.skip > 0 -> [v EXCEPT !.skip = @ + 1]
 [] v.st = "init" ->
        IF v.has /\ (~v.arr \/ ~v.eo \/ name # "ExtensionObject") THEN [v EXCEPT !.st = "finished"]
        ELSE IF IsListName(name) THEN [Root(v, name, "c") EXCEPT !.st = "listof", !.arr = TRUE]
        ELSE IF name = "ExtensionObject" THEN [v EXCEPT !.st = "eo", !.eo = TRUE]
        ELSE [Root(v, name, "p") EXCEPT !.st = "data", !.type = name]
 [] v.st = "listof" ->
        IF name = "ExtensionObject" THEN [v EXCEPT !.st = "eo", !.eo = TRUE]
        ELSE [Member(v, name) EXCEPT !.st = "data", !.type = name]
 [] v.st = "eo" -> IF name = "TypeId" THEN [v EXCEPT !.st = "typeid"]
                   ELSE IF name = "Body" /\ ~v.body THEN [v EXCEPT !.st = "body"] ELSE [v EXCEPT !.skip = 1]
 [] v.st = "body" -> IF v.body THEN [v EXCEPT !.skip = 1]
                     ELSE [Grow(v, name) EXCEPT !.st = "data", !.body = TRUE]
 [] v.st = "typeid" -> IF name = "Identifier" THEN v ELSE [v EXCEPT !.skip = 1]
 [] v.st = "data" -> Grow(v, name)
 [] OTHER -> v
Up(p) == IF p = <<>> THEN NoPtr ELSE SubSeq(p, 1, Len(p) - 1)
VEnd(v, name, ch) == CASE
    v.skip > 0 -> [v EXCEPT !.skip = @ - 1]
 [] v.st = "init" -> [v EXCEPT !.st = "finished"]
 [] v.st = "typeid" -> LET w == IF name = "Identifier" THEN [v EXCEPT !.type = ch] ELSE v
                       IN IF name = "TypeId" THEN [w EXCEPT !.st = "eo"] ELSE w
 [] v.st = "eo" -> IF name = "ExtensionObject" THEN [v EXCEPT !.body = FALSE, !.st = IF v.arr THEN "init" ELSE "finished"] ELSE v
 [] v.st = "data" ->
        LET o == AtPath(v.data, v.cur)
            up == Up(v.cur)
            w == [v EXCEPT !.data = IF o.k = "p" THEN Put(@, v.cur, [o EXCEPT !.v = IF Blank(ch) THEN NULL ELSE ch]) ELSE @, !.cur = up]
        IN IF o.n # name THEN v
           ELSE IF ~v.eo /\ up = NoPtr THEN [w EXCEPT !.st = "init"]
           ELSE IF v.eo /\ ~v.arr /\ up = NoPtr THEN [w EXCEPT !.st = "body"]
           ELSE IF v.eo /\ v.arr /\ Up(up) = NoPtr THEN [w EXCEPT !.st = "body"]
           ELSE w
 [] v.st = "body" -> [v EXCEPT !.st = "eo", !.body = TRUE]
 [] v.st = "listof" -> [v EXCEPT !.st = "finished"]
 [] OTHER -> v

----------------------------------------------------------------------------
(* the automaton of documents *)
NoVal == [st |-> "absent"]
Blanco(cls) == [cls |-> cls, dn |-> NULL, ds |-> NULL, inv |-> NULL, refs |-> <<>>, val |-> NoVal, def |-> <<FALSE, 0>>]
Begin == [st |-> "init", prev |-> "init", dep |-> 0, ch |-> NULL, node |-> Blanco("Object"), val |-> NoVal,
          nodes |-> <<>>, uris |-> <<>>, als |-> <<>>, calls |-> <<>>]
Unknown(a) == [a EXCEPT !.prev = a.st, !.st = "unknown", !.dep = 1]
Call(a, ev, name, v) == [a EXCEPT !.calls = Append(@, [ev |-> ev, n |-> name, a |-> {}, v |-> v])]
Open(a, name) == CASE
    a.st = "init" -> IF name \in DOMAIN ClassOf THEN [a EXCEPT !.st = "node", !.node = Blanco(ClassOf[name])]
                     ELSE IF name = "NamespaceUris" THEN [a EXCEPT !.st = "uris"]
                     ELSE IF name = "Alias" THEN [a EXCEPT !.st = "alias"]
                     ELSE IF name \in Grouping THEN a ELSE Unknown(a)
 [] a.st = "uris" -> IF name = "Uri" THEN [a EXCEPT !.st = "uri"] ELSE Unknown(a)
 [] a.st = "node" -> CASE name = "DisplayName" -> [a EXCEPT !.st = "dn"]
                       [] name = "Description" -> [a EXCEPT !.st = "ds"]
                       [] name = "InverseName" -> [a EXCEPT !.st = "inv"]
                       [] name = "References" -> [a EXCEPT !.st = "refs"]
                       [] name = "Extensions" -> [a EXCEPT !.st = "exts"]
                       [] name = "Value" -> [a EXCEPT !.st = "value", !.val = NewVal]
                       [] name = "Definition" /\ a.node.cls = "DataType" -> [a EXCEPT !.st = "def", !.node.def = <<TRUE, 0>>]
                       [] OTHER -> Unknown(a)
 [] a.st = "def" -> IF name = "Field" THEN [a EXCEPT !.st = "field", !.node.def[2] = @ + 1] ELSE Unknown(a)
 [] a.st = "refs" -> IF name = "Reference" THEN [a EXCEPT !.st = "ref"] ELSE Unknown(a)
 [] a.st = "exts" -> IF name = "Extension" THEN [Call(a, "xnew", "", "") EXCEPT !.st = "ext"] ELSE Unknown(a)
 [] a.st = "value" -> [a EXCEPT !.val = VStart(@, name), !.dep = @ + 1]
 [] a.st = "ext" -> [Call(a, "xstart", name, "") EXCEPT !.dep = @ + 1]
 [] a.st = "unknown" -> [a EXCEPT !.dep = @ + 1]
 [] OTHER -> Unknown(a)
StartTag(a, name) == LET b == Open(a, name) IN IF b.st = "unknown" THEN b ELSE [b EXCEPT !.ch = NULL]
Close(a, name) == CASE
    a.st = "alias" -> [a EXCEPT !.als = Append(@, a.ch), !.st = "init"]
 [] a.st = "uri" -> [a EXCEPT !.uris = Append(@, a.ch), !.st = "uris"]
 [] a.st = "uris" -> [a EXCEPT !.st = "init"]
 [] a.st = "node" -> [a EXCEPT !.nodes = Append(@, a.node), !.st = "init"]
 [] a.st = "dn" -> [a EXCEPT !.node.dn = a.ch, !.st = "node"]
 [] a.st = "ds" -> [a EXCEPT !.node.ds = a.ch, !.st = "node"]
 [] a.st = "inv" -> [a EXCEPT !.node.inv = IF a.node.cls = "ReferenceType" THEN a.ch ELSE NULL, !.st = "node"]
 [] a.st = "refs" -> [a EXCEPT !.st = "node"]
 [] a.st = "ref" -> [a EXCEPT !.node.refs = Append(@, a.ch), !.st = "refs"]
 [] a.st = "value" -> IF name = "Value" /\ a.dep = 0
                      THEN [a EXCEPT !.node.val = IF a.node.cls = "Variable" THEN a.val ELSE @, !.val = NoVal, !.st = "node"]
                      ELSE [a EXCEPT !.val = VEnd(@, name, a.ch), !.dep = @ - 1]
 [] a.st = "ext" -> IF a.dep = 0 THEN [Call(a, "xfin", "", "") EXCEPT !.st = "exts"]
                    ELSE [Call(a, "xend", name, a.ch) EXCEPT !.dep = @ - 1]
 [] a.st = "exts" -> [a EXCEPT !.st = "node"]
 [] a.st = "def" -> [a EXCEPT !.st = "node"]
 [] a.st = "field" -> [a EXCEPT !.st = "def"]
 [] a.st = "unknown" -> [a EXCEPT !.dep = @ - 1, !.st = IF a.dep = 1 THEN a.prev ELSE @]
 [] OTHER -> a
EndTag(a, name) == LET b == Close(a, name) IN IF a.st = "unknown" THEN b ELSE [b EXCEPT !.ch = NULL]
Chars(a, t) == IF a.st = "unknown" THEN a ELSE [a EXCEPT !.ch = IF @ = NULL THEN t ELSE @ \o t]

----------------------------------------------------------------------------
(* the stream of events that is a document *)
El(e) == [e |-> e, a |-> <<>>, c |-> <<>>, x |-> ""]
Txt(t) == [e |-> "", a |-> <<>>, c |-> <<>>, x |-> t]
TopE == path[Len(path)]
Into(p, x) == [p EXCEPT ![Len(p)].c = Append(@, x)]
(* in mode "all" each tag is followed by a text of its own *)
Gap(p) == Txt(IF Len(p) <= 2 THEN "t" ELSE "t" \o ToString(Len(p[Len(p)].c)) \o p[Len(p)].e)
WithGap(p) == IF TextMode = "all" THEN Into(p, Gap(p)) ELSE p
CharGap(p, a) == IF TextMode = "all" THEN Chars(a, Gap(p).x) ELSE a
RECURSIVE Enter(_, _, _)
Enter(names, p, a) == IF names = <<>> THEN <<p, a>> ELSE
    LET q == Append(p, El(Head(names))) IN Enter(Tail(names), WithGap(q), CharGap(q, StartTag(a, Head(names))))
Init == /\ \E s \in Starts : LET x == Enter(s, <<>>, Begin) IN path = x[1] /\ m = x[2]
        /\ n = 0 /\ wild = 0
Start == /\ path # <<>> /\ n < MaxElems
         /\ \E e \in Known(TopE.e) \cup (IF wild < MaxWild THEN Wilds ELSE {}) :
              LET q == Append(path, El(e)) IN
              /\ wild' = IF e \in Known(TopE.e) THEN wild ELSE wild + 1
              /\ path' = WithGap(q) /\ m' = CharGap(q, StartTag(m, e))
         /\ n' = n + 1
End == /\ Len(path) > 1
       /\ LET p == SubSeq(path, 1, Len(path) - 1)
              q == Into(p, TopE)
              a == EndTag(m, TopE.e)
          IN path' = WithGap(q) /\ m' = CharGap(q, a)
       /\ UNCHANGED <<n, wild>>
Text1 == /\ TextMode = "free" /\ path # <<>>
         /\ IF TopE.c = <<>> THEN TRUE ELSE TopE.c[Len(TopE.c)].e # ""
         /\ \E t \in {"x", " "} : path' = Into(path, Txt(t)) /\ m' = Chars(m, t)
         /\ UNCHANGED <<n, wild>>
Next == Start \/ End \/ Text1
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* at the end of a document *)
Complete == Len(path) = 1
Doc == path[1]
RECURSIVE NormD(_)
NormD(d) == IF d.k = "c" /\ d.m = <<>> THEN [k |-> "p", n |-> d.n, v |-> NULL, m |-> <<>>]
            ELSE [d EXCEPT !.v = IF d.k = "p" THEN d.v ELSE "", !.m = [i \in DOMAIN d.m |-> NormD(d.m[i])]]
NormV(v) == IF ~v.has \/ v.data.k = "none" THEN NoValue ELSE [v EXCEPT !.data = NormD(v.data)]
ValOf(v) == IF v.st = "absent" \/ ~v.has THEN NoValue ELSE NormV([has |-> TRUE, arr |-> v.arr, eo |-> v.eo, type |-> v.type, data |-> v.data])
Got(nd) == <<nd.cls, nd.dn, nd.ds, nd.inv, nd.refs, ValOf(nd.val), nd.def>>
Means(el) == LET cls == ClassOf[el.e] IN
    <<cls, LText(el, "DisplayName")[2], LText(el, "Description")[2],
      IF cls = "ReferenceType" THEN LText(el, "InverseName")[2] ELSE NULL,
      Texts(RefElems(el)),
      IF cls = "Variable" THEN NormV(ValueOf(el)) ELSE NoValue,
      IF cls = "DataType" /\ Kids(el, "Definition") # <<>> THEN LET k == Kids(el, "Definition") IN <<TRUE, Len(Kids(k[Len(k)], "Field"))>> ELSE <<FALSE, 0>>>>
(* the automaton is back where it was *)
Rest == m.st = "init" /\ m.dep = 0 /\ m.val.st = "absent"
Agrees == LET els == NodeElems(Doc)
              al == SelectSeq(Top(Doc), LAMBDA k : k.e = "Alias")
          IN /\ Rest
             /\ [i \in DOMAIN m.nodes |-> Got(m.nodes[i])] = [i \in DOMAIN els |-> Means(els[i])]
             /\ m.uris = Uris(Doc) /\ m.als = Texts(al)
             /\ m.calls = DocExtCalls(Doc)
(* values the specification says nothing about: lists of extension objects    *)
(* and other elements, identifiers that are not a plain text                  *)
RECURSIVE Proper(_)
Proper(el) == LET k == Elems(el) IN
    /\ el.e = "Identifier" => k = <<>>
    /\ IsListName(el.e) => \A i \in DOMAIN k : (k[i].e = "ExtensionObject") = (k[1].e = "ExtensionObject")
    /\ \A i \in DOMAIN k : Proper(k[i])
InScope == Complete /\ (Scope = "value" => Proper(Doc))
Inv == InScope => Agrees = TRUE
(* for the replay: the tree without its texts *)
RECURSIVE Shape(_)
Shape(el) == LET k == Elems(el) IN <<el.e, [i \in DOMAIN k |-> Shape(k[i])]>>
Report == InScope /\ Agrees # TRUE => PrintT("BAD " \o ToJson(Shape(Doc)))
Emit == InScope => PrintT("DOC " \o ToJson(Shape(Doc)))
=============================================================================
