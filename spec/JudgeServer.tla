----------------------------- MODULE JudgeServer -----------------------------
(* Validates recorded histories of loads into servers against Server.tla.     *)
(* Every load is one step: from the state of the server before, the document  *)
(* and the result, to the state dumped after it.                              *)
EXTENDS Server

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, sv
vars == <<c, l, sv>>
Case == Cases[c]
Ev == Case.ev[l]
Say(why) == PrintT("FAIL " \o Case.id \o " " \o ToString(l) \o " " \o why)
Check(ok, why) == IF ok THEN TRUE ELSE Say(why)
P(ps) == Prop \in ps
Pick(S) == CHOOSE x \in S : TRUE
Show(S) == ToString(IF Cardinality(S) > 4 THEN {Pick(S)} ELSE S)
NoDup(s) == Cardinality(Range(s)) = Len(s)
NormL(t) == <<Norm(t[1]), Norm(t[2])>>

----------------------------------------------------------------------------
(* the state of a server as dumped *)
RefsOfDump(d) ==
    UNION {{<<d.nodes[i].id, d.nodes[i].refs[j].f, d.nodes[i].refs[j].t, d.nodes[i].refs[j].g>> : j \in DOMAIN d.nodes[i].refs} : i \in DOMAIN d.nodes}
    \cup UNION {{<<d.brefs[i].id, d.brefs[i].refs[j].f, d.brefs[i].refs[j].t, d.brefs[i].refs[j].g>> : j \in DOMAIN d.brefs[i].refs} : i \in DOMAIN d.brefs}
Strip(n) == [n EXCEPT !.refs = <<>>]
StateOf(d) == [ns |-> d.ns, nodes |-> [i \in DOMAIN d.nodes |-> Strip(d.nodes[i])], refs |-> Sorted(RefsOfDump(d)), types |-> d.types]
Fresh(uris) == [ns |-> AddUris(HostNs, uris), nodes |-> <<>>, refs |-> {}, types |-> <<>>]
NodeIds(s) == {s.nodes[i].id : i \in DOMAIN s.nodes}
SetS(s) == sv' = [x \in DOMAIN sv \cup {Ev.S} |-> IF x = Ev.S THEN s ELSE sv[x]]

----------------------------------------------------------------------------
(* what stays as it was (C26, C20) *)
JudgeKept(s, t, d) ==
    LET lost == Range(s.nodes) \ Sorted(Range(t.nodes))
        gone == Range(s.types) \ Sorted(Range(t.types))
    IN /\ P({"C19", "C20", "C26"}) =>
            /\ Check(lost = {}, "node changed or lost: " \o Show(lost))
            /\ Check(s.refs \subseteq t.refs, "reference lost: " \o Show(s.refs \ t.refs))
            /\ Check(d.base, "a node of the host changed")
       /\ P({"C21", "C26"}) => Check(gone = {}, "registered data type changed or lost: " \o Show(gone))
       /\ P({"C19", "C26"}) => /\ Check(NoDup([i \in DOMAIN t.nodes |-> t.nodes[i].id]), "node twice")
                               /\ Check(\A i \in DOMAIN d.nodes : NoDup(d.nodes[i].refs), "reference twice")
                               /\ Check(\A i \in DOMAIN d.brefs : NoDup(d.brefs[i].refs), "reference of a host node twice")
       /\ P({"C21", "C26"}) => Check(NoDup([i \in DOMAIN t.types |-> t.types[i].id]), "data type registered twice")
       /\ P({"C23", "C26"}) => Check(Len(t.ns) >= Len(s.ns) /\ SubSeq(t.ns, 1, Len(s.ns)) = s.ns, "namespaces of the server changed")

(* failed loads leave the server as it was, but for namespaces of the file *)
JudgeFailed(s, t, uris) ==
    /\ P({"C20", "C26"}) => /\ Check(t.nodes = s.nodes /\ t.refs = s.refs, "failed load changed nodes: " \o Show(Range(t.nodes) \ Range(s.nodes)))
                            /\ Check(t.types = s.types, "failed load changed data types")
    /\ P({"C20"}) /\ Ev.logged => Check(\E i \in DOMAIN Ev.logs : Ev.logs[i] >= 500, "failure without error log")
    /\ P({"C23", "C26"}) => Check(\E k \in 0..Len(uris) : t.ns = AddUris(s.ns, SubSeq(uris, 1, k)), "namespaces after a failed load: " \o ToString(t.ns))

----------------------------------------------------------------------------
(* a new node against its declarations *)
NodeBad(X, n, o, ps, ext) ==
    IF o.cls # n.cls THEN "class"
    ELSE IF P({"C19", "C23", "C26"}) /\ o.bn # <<n.bn[1], Norm(n.bn[2])>> THEN "browse name"
    ELSE IF P({"C19", "C20", "C23", "C26"}) /\ ~(IF ps = {} THEN o.par = NullId ELSE \E r \in ps : r.g = o.par /\ r.t = o.parref) THEN "parent"
    ELSE IF P({"C19", "C23", "C26"}) /\ o.td # TypeDefOf(n) THEN "type definition"
    ELSE IF P({"C19", "C23", "C26"}) /\ o.dt # n.dt THEN "data type"
    ELSE IF ~P({"C19", "C26"}) THEN ""
    ELSE IF o.dn # NormL(n.dn) THEN "display name"
    ELSE IF o.ds # NormL(n.ds) THEN "description"
    ELSE IF o.inv # NormL(n.inv) THEN "inverse name"
    ELSE IF ~AttrOk(X, n, o.at) THEN "attributes"
    ELSE IF n.cls \in {"Variable", "VariableType"} /\ DimsOf(X, n) # {} /\ o.dims \notin DimsOf(X, n) THEN "array dimensions"
    ELSE IF o.ctx # ext THEN "context"
    ELSE ""
JudgeNodes(X, fn, hier, fresh, T, SP, there, exts) ==
    \A i \in DOMAIN fresh :
        LET o == fresh[i]
            cand == {k \in DOMAIN fn : fn[k].id = o.id /\ fn[k].cls = o.cls}
            good == {k \in cand : NodeBad(X, fn[k], o, Parents(fn, hier, fn[k]), exts[k]) = ""}
        IN /\ Check(good # {} \/ cand = {}, "node " \o ToString(o.id) \o ": " \o
                    (IF cand = {} THEN "" ELSE NodeBad(X, fn[Pick(cand)], o, Parents(fn, hier, fn[Pick(cand)]), exts[Pick(cand)])) \o " " \o ToString([o EXCEPT !.val = "", !.refs = ""]))
           /\ P({"C22", "C23", "C26"}) /\ o.cls = "Variable" =>
                Check(\E k \in cand : ValueOk(X, fn[k], T, SP, there, o.val), "value of " \o ToString(o.id) \o ": " \o ToString(o.val))
(* objects of the extensions of the nodes *)
ExtsOf(fn, d) == IF Ev.mode # "ext" \/ \A k \in DOMAIN fn : fn[k].nx = 0 THEN [k \in DOMAIN fn |-> 0]
                 ELSE LET cnt[k \in 0..Len(fn)] == IF k = 0 THEN 0 ELSE cnt[k - 1] + fn[k].nx
                      IN [k \in DOMAIN fn |-> IF fn[k].nx = 0 THEN 0 ELSE IF cnt[k] \in DOMAIN d THEN d[cnt[k]] ELSE -1]

----------------------------------------------------------------------------
(* registered data types (C21) *)
TypeBad(n, t, b, T, AL, SP, abs, cyc, encs) ==
    IF t.name # Norm(n.bn[2]) THEN "name"
    ELSE IF ~MembersOk(n, t, b, T, SP, abs, cyc) THEN "members"
    ELSE IF t.kind # KindOf(n, t, b) THEN "kind"
    ELSE IF ~EncOk(n, t, b, encs) THEN "binary encoding"
    ELSE IF t.kind \notin StructKinds THEN IF t.size # BuiltinAl[t.kind].size THEN "size" ELSE IF t.pf # BuiltinAl[t.kind].pf THEN "pointer free" ELSE ""
    ELSE IF ~LayoutKnown(T, t) THEN ""
    ELSE IF [i \in DOMAIN t.m |-> t.m[i].p] # Layout(T, AL, t).pads THEN "member offsets"
    ELSE IF t.size # Layout(T, AL, t).size THEN "size"
    ELSE IF t.pf # NoPointers(T, t) THEN "pointer free"
    ELSE ""
JudgeTypes(fn, s, t, added, T, SP) ==
    LET new == Sorted(Range(t.types) \ Range(s.types))
        dts == {fn[i] : i \in {j \in DOMAIN fn : fn[j].cls = "DataType"}}
        abs == Sorted({id \in BaseIds : BNodes[id].cls = "DataType" /\ BNodes[id].abs}
                      \cup {n.id : n \in {m \in Range(t.nodes) : m.cls = "DataType" /\ m.at["IsAbstract"] = "true"}})
        cyc == Sorted(Unfounded(dts, SP))
        old == {x.id : x \in Range(s.types)}
        missing == {a[1] : a \in {q \in added : q[2] = "DataType"}} \ {x.id : x \in new}
        encs == Sorted(Range(EncRefs(fn)))
        founded == Core(Contains(T)) = {}
        AL == IF founded THEN Aligns(T) ELSE <<>>
    IN /\ Check(missing \ old = {}, "data type not registered: " \o Show(missing))
       /\ Check(founded, "registered data types contain themselves")
       /\ founded => \A x \in new :
            LET cand == {n \in dts : n.id = x.id}
                b == BaseOf(x.id, SP, 64)
            IN Check(\E n \in cand : TypeBad(n, x, b, T, AL, SP, abs, cyc, encs) = "",
                     "data type " \o ToString(x) \o ": " \o (IF cand = {} THEN "not in the file" ELSE TypeBad(Pick(cand), x, b, T, AL, SP, abs, cyc, encs)))

----------------------------------------------------------------------------
Judged ==
    LET s == sv[Ev.S]
        d == Ev.post
        t == StateOf(d)
        hasdoc == Ev.doc # 0
        doc == Case.docs[Ev.doc]
        uris == IF hasdoc THEN Uris(doc) ELSE <<>>
        rets == Rets(s.ns, uris)
        X == [ids |-> Case.ids, bns |-> Case.bns, ints |-> Case.ints, lex |-> Case.lex, dims |-> Case.dims, neg |-> Range(Case.neg),
              rets |-> rets, nuri |-> Len(uris)]
        fn == FileNodes(X, doc, rets)
        ok == Ev.exp = "ok" /\ SrvSortOk(s, fn)
    IN /\ P({"C20", "C23", "C26"}) => Check(Ev.ret = ok, "load returned " \o ToString(Ev.ret))
       /\ JudgeKept(s, t, d)
       /\ IF ~ok \/ ~Ev.ret THEN JudgeFailed(s, t, uris)
          ELSE LET hier == SrvHier(s, fn)
                   before == There(s)
                   after == There(t)
                   got == Sorted(after \ before)
                   lo == Added(s, fn, hier, Len(t.ns), FALSE)
                   hi == Added(s, fn, hier, Len(t.ns), TRUE)
                   fresh == SelectSeq(t.nodes, LAMBDA n : <<n.id, n.cls>> \in got)
                   T == ById(HostTypes \o t.types)
                   SP == SubPairs(t)
                   RT == Sorted({a[1] : a \in {q \in after : q[2] = "ReferenceType"}})
                   ids == IdsOf(after)
                   rlo == DeclRefs(fn, hier, ids, RT, TRUE) \cup TypeDefRefs(fn, got, TRUE)
                   rhi == s.refs \cup DeclRefs(fn, hier, ids, RT, FALSE) \cup TypeDefRefs(fn, got, FALSE)
               IN /\ P({"C19", "C20", "C26"}) =>
                       /\ Check(lo \subseteq got, "node not added: " \o Show(lo \ got))
                       /\ Check(got \subseteq hi, "node added that cannot be added: " \o Show(got \ hi))
                  /\ P({"C23", "C26"}) => Check(t.ns = AddUris(s.ns, uris), "namespaces: " \o ToString(t.ns))
                  /\ JudgeNodes(X, fn, hier, fresh, T, SP, after, ExtsOf(fn, Ev.xd))
                  /\ P({"C19", "C23", "C26"}) =>
                       /\ Check(rlo \subseteq t.refs, "reference missing: " \o Show(rlo \ t.refs))
                       /\ Check(t.refs \subseteq Sorted(rhi), "reference that is not declared: " \o Show(t.refs \ Sorted(rhi)))
                  /\ P({"C21", "C26"}) => JudgeTypes(fn, s, t, got, T, SP)
Load ==
    /\ Ev.ev = "load"
    /\ Judged = TRUE       \* as a value: TLC keeps the values of definitions only in expressions
    /\ SetS(StateOf(Ev.post))
SNew == Ev.ev = "snew" /\ SetS(Fresh(Ev.uris))
NsAdd == Ev.ev = "nsadd" /\ SetS([sv[Ev.S] EXCEPT !.ns = AddUris(@, <<Ev.uri>>)])
SDel == Ev.ev = "sdel" /\ SetS(Fresh(<<>>))
Ledger == /\ Ev.ev = "ledger" /\ UNCHANGED sv
          /\ P({"C18", "C26"}) => Check(Ev.live = 0 /\ Ev.xml = 0 /\ Ev.fds = 0, "not released: " \o ToString(Ev))
Done == Ev.ev = "done" /\ UNCHANGED sv
End == Ev.ev = "end" /\ UNCHANGED sv /\ Check(Ev.how = "ok", "ended with " \o Ev.how)
Odd == Ev.ev \notin {"load", "snew", "nsadd", "sdel", "ledger", "done", "end"} /\ UNCHANGED sv /\ Say("unexpected event " \o Ev.ev)

Step == /\ c <= Len(Cases) /\ l <= Len(Case.ev)
        /\ (Load \/ SNew \/ NsAdd \/ SDel \/ Ledger \/ Done \/ End \/ Odd)
        /\ l' = l + 1 /\ UNCHANGED c
NextCase == c < Len(Cases) /\ l > Len(Case.ev) /\ c' = c + 1 /\ l' = 1 /\ sv' = <<>>
(* the layout rules of the specification are those of the C compiler of the host *)
HostLayout == LET T == BTypes AL == Aligns(BTypes) IN \A id \in DOMAIN T : T[id].kind \in StructKinds /\ LayoutKnown(T, T[id]) =>
    /\ [i \in DOMAIN T[id].m |-> T[id].m[i].p] = Layout(T, AL, T[id]).pads /\ T[id].size = Layout(T, AL, T[id]).size
    /\ AL[id] = T[id].al /\ T[id].pf = NoPointers(T, T[id])
ASSUME HostLayout
Init == c = 1 /\ l = 1 /\ sv = <<>>
Next == Step \/ NextCase
Spec == Init /\ [][Next]_vars
Total[i \in 0..Len(Cases)] == IF i = 0 THEN 0 ELSE Total[i - 1] + Len(Cases[i].ev) + 1
Accepted == TLCGet("stats").diameter = Total[Len(Cases)]
=============================================================================
