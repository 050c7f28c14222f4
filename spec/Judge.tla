------------------------------- MODULE Judge -------------------------------
(* Validates recorded histories of the real loader against the specification. *)
(* One case = a history of calls with the documents used, and the recorded    *)
(* events. Every event is one step; what the loader delivers has to be what   *)
(* the documents mean. IOEnv.PROP selects the property that is judged.        *)
EXTENDS Meaning, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, ld
vars == <<c, l, ld>>

Case == Cases[c]
X == [ids |-> Case.ids, bns |-> Case.bns, ints |-> Case.ints]
Ev == Case.ev[l]
Say(why) == PrintT("FAIL " \o Case.id \o " " \o ToString(l) \o " " \o why)
Check(ok, why) == IF ok THEN TRUE ELSE Say(why)

NormL(t) == <<Norm(t[1]), Norm(t[2])>>
RECURSIVE NormData(_)
NormData(d) == IF d.k = "c" /\ d.m = <<>> THEN [k |-> "p", n |-> d.n, v |-> NULL, m |-> <<>>]
               ELSE [k |-> d.k, n |-> d.n, v |-> IF d.k = "p" THEN Norm(d.v) ELSE "", m |-> [i \in DOMAIN d.m |-> NormData(d.m[i])]]
NormVal(v) == IF ~v.has \/ v.data.k = "none" THEN NoValue
              ELSE [v EXCEPT !.type = Norm(v.type), !.data = NormData(v.data)]
NormAt(at) == [n \in DOMAIN at \ {"_"} |-> Norm(at[n])]
NormDef(d) == [d EXCEPT !.f = [i \in DOMAIN d.f |-> [d.f[i] EXCEPT !.n = Norm(d.f[i].n)]]]
Types(refs) == [i \in DOMAIN refs |-> refs[i].t]

----------------------------------------------------------------------------
(* views of a delivered node; each is compared with the expected ones *)
View(n, h, nh, td, ext) == CASE
    Prop \in {"C01", "C02", "C03"} -> <<n.cls, n.id, n.bn>>
 [] Prop \in {"C04", "C05"} -> <<n.cls, n.id, n.bn, n.par, n.dt, Bag(h), Bag(nh), Bag(td), [i \in DOMAIN n.def.f |-> n.def.f[i].dt]>>
 [] Prop = "C06" -> <<n.cls, n.id, Bag(Types(h)), Bag(Types(nh))>>
 [] Prop = "C07" -> <<n.cls, n.id, Bag(h), Bag(nh), Bag(td)>>
 [] Prop = "C08" -> <<n.cls, n.id, n.bn, n.par, n.dt, NormAt(n.at), Norm(n.dn[1]), Norm(n.ds[1]), Norm(n.inv[1])>>
 [] Prop = "C11" -> <<n.cls, n.id, NormVal(n.val)>>
 [] Prop = "C12" -> <<n.cls, n.id, NormDef(n.def)>>
 [] Prop = "C13" -> <<n.cls, n.id>>
 [] Prop = "C14" -> <<n.cls, n.id, ext>>
 [] OTHER -> <<n.cls, n.id, n.bn, n.par, n.dt, NormAt(n.at), NormL(n.dn), NormL(n.ds), NormL(n.inv),
               Bag(h), Bag(nh), Bag(td), NormVal(n.val), NormDef(n.def), ext>>

(* the nodes of an import, with the object handed out for their last extension *)
NodesOfImport(doc, rets, mode, xd) ==
    LET ns == FileNodes(X, doc, rets)
        cnt[k \in 0..Len(ns)] == IF k = 0 THEN 0 ELSE cnt[k - 1] + ns[k].nx
    IN [k \in DOMAIN ns |-> [n |-> ns[k],
            ext |-> IF mode # "ext" \/ ns[k].nx = 0 THEN 0
                    ELSE IF cnt[k] \in DOMAIN xd THEN xd[cnt[k]] ELSE -1]]
NodesOf(imps) == Concat(imps)
(* imports of a loader that take part in what it delivers *)
Delivered(L) == SubSeq(L.imps, 1, L.sorted)
Plain(xs) == [i \in DOMAIN xs |-> xs[i].n]

ViewsOf(svc, xs, PR(_, _, _)) ==
    LET nodes == Plain(xs)
        hier == Sorted(Hier(HierBase(svc), nodes))
    IN UNION {{View(nodes[i], HRefs(nodes[i], hier) \o p, NRefs(nodes[i], hier), TypeDefs(nodes[i]), xs[i].ext) :
                    p \in PR(nodes, hier, nodes[i])} : i \in DOMAIN nodes}
ExpectedViews(svc, xs) == ViewsOf(svc, xs, ParentRefs)
(* the parent may be missing if a file broke off *)
MaybeParentRefs(nodes, hier, n) == ParentRefs(nodes, hier, n) \cup
    (IF NeedsParentRef(n, hier) THEN {<<[f |-> FALSE, t |-> HasComponent, g |-> n.par]>>} ELSE {})
ObsView(o) == View(o, o.h, o.nh, o.td, o.ext)

NoDup(s) == Cardinality(Range(s)) = Len(s)
Ids(s) == [i \in DOMAIN s |-> s[i].id]
Pick(S) == CHOOSE x \in S : TRUE

(* C02: the ancestors of a node come first within its class *)
(* nodes that are not declared more than once *)
Single(nodes) == LET ids == Bag(Ids(nodes)) IN SelectSeq(nodes, LAMBDA n : ids[n.id] = 1)
RECURSIVE AncFix(_)
AncFix(A) == LET B == [v \in DOMAIN A |-> A[v] \cup UNION {A[u] : u \in A[v] \cap DOMAIN A}] IN IF A = B THEN A ELSE AncFix(B)
Ancestors(E) == LET V == {e[1] : e \in E} \cup {e[2] : e \in E}
                IN AncFix([v \in V |-> {e[1] : e \in {d \in E : d[2] = v}}])
OrderOk(obs, E) ==
    LET anc == Ancestors(E) IN
    \A j \in DOMAIN obs : obs[j].id \in DOMAIN anc =>
        \A i \in (j + 1)..Len(obs) : obs[i].cls = obs[j].cls => obs[i].id \notin anc[obs[j].id]
(* large nodesets: only direct relations; no relation leads from the second half to the first *)
RECURSIVE FirstsFirst(_, _)
FirstsFirst(s, F) ==
    IF F = {} \/ Len(s) <= 1 THEN TRUE
    ELSE LET m == Len(s) \div 2
             A == Sorted(Range(SubSeq(s, 1, m)))
         IN /\ \A e \in F : e[2] \in A => e[1] \in A
            /\ FirstsFirst(SubSeq(s, 1, m), {e \in F : e[2] \in A})
            /\ FirstsFirst(SubSeq(s, m + 1, Len(s)), {e \in F : e[1] \notin A})
OrderOkDirect(obs, E) ==
    \A cl \in Classes :
        LET s == Ids(SelectSeq(obs, LAMBDA o : o.cls = cl))
            in == Sorted(Range(s))
        IN FirstsFirst(s, {e \in E : e[1] \in in /\ e[2] \in in})

(* what to report: the parts that differ from a node with the same id *)
Differs(g, exp) ==
    LET same == {e \in exp : e[2] = g[2]}
    IN IF same = {} THEN "unexpected node " \o ToString(<<g[1], g[2]>>)
       ELSE LET e == Pick(same)
                k == {i \in DOMAIN g : g[i] # e[i]}
            IN "node differs: " \o ToString(<<g[1], g[2]>>) \o " parts " \o ToString(k) \o
               " got " \o ToString([i \in k |-> g[i]]) \o " expected " \o ToString([i \in k |-> e[i]])
JudgeDump(L) ==
    LET xs == NodesOf(Delivered(L))
        nodes == Plain(xs)
        obs == Ev.nodes
        hier == Sorted(Hier(HierBase(L.svc), nodes))
        exp == ExpectedViews(L.svc, xs)
        got == {ObsView(obs[i]) : i \in DOMAIN obs}
        extra == got \ Sorted(exp)
        missing == Range(Ids(nodes)) \ Sorted(Range(Ids(obs)))
        \* nodes of files whose import failed may be there, too (C15)
        brk == NodesOf(L.broken)
        allowed == IF L.broken = <<>> THEN {} ELSE ViewsOf(L.svc, xs \o brk, MaybeParentRefs)
    IN /\ Check(extra \ allowed = {}, Differs(Pick(extra \ allowed), exp))
       /\ Check(missing = {}, "node missing: " \o ToString(missing))
       /\ Check(NoDup(Ids(obs)), "node delivered more than once")
       /\ Check(\A i \in DOMAIN Ev.counts : Ev.counts[i].ret = Ev.counts[i].seen
                    /\ Ev.counts[i].seen = Cardinality({k \in DOMAIN obs : obs[k].cls = Ev.counts[i].cls}), "count")
       /\ Check(\A i \in DOMAIN obs : obs[i].ncls = obs[i].cls /\ obs[i].unk = <<>> /\ obs[i].inst = (obs[i].cls \in InstanceClasses), "class of node")
       /\ Prop = "C02" => Check(IF Len(obs) > 150 THEN OrderOkDirect(obs, Edges(Single(nodes), hier)) ELSE OrderOk(obs, Edges(Single(nodes), hier)), "order")
       /\ Prop \in {"C04", "C05", "C13", "C15", "C17", "C25"} /\ L.broken = <<>> =>
            LET e == Bag(EncRefs(Plain(NodesOf(L.imps))))
                g == Bag(Ev.bidir)
            IN Check(e = g, "encodings: got " \o ToString(g) \o " expected " \o ToString(e))

(* after a failed sort nothing that lies on a cycle may be delivered *)
JudgeFailedDump(L) ==
    LET nodes == Plain(NodesOf(L.imps))
        hier == Sorted(Hier(HierBase(L.svc), nodes))
        bad == OnCycle(Edges(nodes, hier))
    IN /\ Prop = "C03" => Check(Range(Ids(Ev.nodes)) \cap bad = {}, "node on a cycle delivered")
       /\ Check(Range(Ids(Ev.nodes)) \subseteq Range(Ids(nodes)) \cup Range(Ids(Plain(NodesOf(L.broken)))), "unknown node delivered")

----------------------------------------------------------------------------
(* the calls *)
Fresh(svc) == [svc |-> svc, imps |-> <<>>, broken |-> <<>>, sorted |-> 0, failed |-> FALSE, told |-> <<>>]
SetL(r) == ld' = [x \in DOMAIN ld \cup {Ev.L} |-> IF x = Ev.L THEN r ELSE ld[x]]
Errors == {i \in DOMAIN Ev.logs : Ev.logs[i] = 2}
LogOk == ~Ev.ret /\ Ev.caplog => Check(Errors # {}, "failure without error log")

New == Ev.ev = "new" /\ Check(Ev.ret, "new failed") /\ SetL(Fresh(Ev.svc))
Calls(xs) == [i \in DOMAIN xs |-> [ev |-> xs[i].ev, n |-> xs[i].n,
                                   a |-> {<<xs[i].a[k][1], xs[i].a[k][2]>> : k \in DOMAIN xs[i].a}, v |-> Norm(xs[i].v)]]
NormCalls(xs) == [i \in DOMAIN xs |-> [xs[i] EXCEPT !.v = Norm(xs[i].v)]]
(* every call gets the object of its extension *)
SameObject(xs) == \A i \in DOMAIN xs : i > 1 /\ xs[i].ev # "xnew" => xs[i].d = xs[i - 1].d
Import ==
    /\ Ev.ev = "import"
    /\ LET L == ld[Ev.L]
           doc == Case.docs[Ev.doc]
           rets == [i \in DOMAIN Ev.addns |-> Ev.addns[i].ret]
           new == SelectSeq(Ev.x, LAMBDA x : x.ev = "xnew")
           imp == IF Ev.doc = 0 THEN <<>> ELSE NodesOfImport(doc, rets, Ev.mode, [i \in DOMAIN new |-> new[i].d])
       IN /\ Check(Ev.ret = (Ev.exp = "ok"), "import returned " \o ToString(Ev.ret))
          /\ LogOk
          /\ Prop = "C25" => Check(Ev.foreign = <<>>, "log of another loader")
          /\ Ev.exp = "ok" =>
               /\ Prop \in {"C04", "C09", "C10", "C15", "C17", "C25"} =>
                    /\ Check([i \in DOMAIN Ev.addns |-> Norm(Ev.addns[i].uri)] = [i \in DOMAIN Uris(doc) |-> Norm(Uris(doc)[i])],
                          "namespace callback: " \o ToString(Ev.addns))
                    /\ Check(\A i \in DOMAIN Ev.addns : Ev.addns[i].L = Ev.L, "user context of the namespace callback")
               /\ Prop \in {"C09", "C10", "C14", "C25"} =>
                    LET e == IF Ev.mode = "ext" THEN NormCalls(DocExtCalls(doc)) ELSE <<>>
                    IN Check(Calls(Ev.x) = e /\ SameObject(Ev.x), "extension calls: got " \o ToString(Calls(Ev.x)) \o " expected " \o ToString(e))
          /\ SetL(IF Ev.exp = "ok" THEN [L EXCEPT !.imps = Append(@, imp), !.told = @ \o Ev.rt]
                  ELSE [L EXCEPT !.broken = Append(@, imp), !.told = @ \o Ev.rt])
(* C06: what a user supplied service was told *)
(* not always possible if the reference types of the file relate its reference types *)
Interdependent(nodes) == LET known == KnownTypes(nodes)
                         IN \E n \in RefTypes(nodes) : \E k \in DOMAIN n.refs : ~n.refs[k].f /\ n.refs[k].t \in known
SuperBeforeSub(nodes, told) == Interdependent(nodes) \/
    \A i, j \in DOMAIN told : i < j =>
        ~ \E n \in RefTypes(nodes) : n.id = told[i].id /\ \E k \in DOMAIN n.refs :
            ~n.refs[k].f /\ n.refs[k].t = <<0, "i=45">> /\ n.refs[k].g = told[j].id
JudgeTold(L, told) ==
    LET nodes == Plain(NodesOf(L.imps))
    IN L.svc = "cust" /\ Prop = "C06" =>
        /\ Check(Range(Ids(told)) = KnownTypes(nodes) /\ NoDup(Ids(told)), "service told about " \o ToString(told))
        /\ Check(SuperBeforeSub(nodes, told), "service told about a subtype first " \o ToString(told))
Sort ==
    /\ Ev.ev = "sort"
    /\ LET L == ld[Ev.L]
           nodes == Plain(NodesOf(L.imps))
           ok == SortOk(L.svc, nodes)
       IN /\ Check(Ev.ret = ok, "sort returned " \o ToString(Ev.ret))
          /\ LogOk
          /\ Prop = "C25" => Check(Ev.foreign = <<>>, "log of another loader")
          /\ ok => JudgeTold(L, L.told \o Ev.rt)
          /\ SetL([L EXCEPT !.sorted = IF ok THEN Len(L.imps) ELSE @, !.failed = ~ok, !.told = @ \o Ev.rt])
Dump == /\ Ev.ev = "dump" /\ UNCHANGED ld
        \* as a value: TLC keeps the values of definitions only in expressions
        /\ (IF ld[Ev.L].failed THEN JudgeFailedDump(ld[Ev.L]) ELSE JudgeDump(ld[Ev.L])) = TRUE
Del == Ev.ev = "del" /\ SetL(Fresh("int"))
(* C18: everything is released *)
Ledger == /\ Ev.ev = "ledger" /\ UNCHANGED ld
          /\ Prop \in {"C15", "C18"} => Check(Ev.live = 0 /\ Ev.xml = 0 /\ Ev.fds = 0, "not released: " \o ToString(Ev))
Done == Ev.ev = "done" /\ UNCHANGED ld
End == Ev.ev = "end" /\ UNCHANGED ld /\ Check(Ev.how = "ok", "ended with " \o Ev.how)
Odd == Ev.ev \notin {"new", "import", "sort", "dump", "del", "ledger", "done", "end"} /\ UNCHANGED ld /\ Say("unexpected event " \o Ev.ev)

Step == /\ c <= Len(Cases) /\ l <= Len(Case.ev)
        /\ (New \/ Import \/ Sort \/ Dump \/ Del \/ Ledger \/ Done \/ End \/ Odd)
        /\ l' = l + 1 /\ UNCHANGED c
NextCase == c < Len(Cases) /\ l > Len(Case.ev) /\ c' = c + 1 /\ l' = 1 /\ ld' = <<>>
Init == c = 1 /\ l = 1 /\ ld = <<>>
Next == Step \/ NextCase
Spec == Init /\ [][Next]_vars
Total[i \in 0..Len(Cases)] == IF i = 0 THEN 0 ELSE Total[i - 1] + Len(Cases[i].ev) + 1
Accepted == TLCGet("stats").diameter = Total[Len(Cases)]
=============================================================================
