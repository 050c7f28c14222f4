----------------------------- MODULE Lifecycle -----------------------------
(* A loader as a state machine over the calls of its interface: what it keeps *)
(* between the calls (the sorter, the nodes that wait for a reference type,   *)
(* the reference types its service knows, what it delivers), compared after   *)
(* every call with what the imported files mean. Every history of K calls on  *)
(* the loaders is replayed on the real code.                                  *)
EXTENDS Meaning, Json
CONSTANTS K,            \* calls per history
          Loaders, Kinds
(* file -> its nodes in order: parents, reference types in use, subtype of *)
N0 == [par |-> {}, via |-> {}, rt |-> FALSE, sup |-> {}]
File == [
    P |-> <<[N0 EXCEPT !.par = {"ext"}] @@ [id |-> "p"]>>,                    \* a parent
    C |-> <<[N0 EXCEPT !.par = {"p"}] @@ [id |-> "c"]>>,                      \* its child
    Q |-> <<[N0 EXCEPT !.par = {"c"}] @@ [id |-> "p"]>>,                      \* the parent again, below its child
    K |-> <<[N0 EXCEPT !.par = {"k2"}] @@ [id |-> "k1"], [N0 EXCEPT !.par = {"k1"}] @@ [id |-> "k2"]>>,
    U |-> <<[N0 EXCEPT !.via = {<<"x", "p">>}] @@ [id |-> "u"]>>,             \* in need of a reference type
    R |-> <<[N0 EXCEPT !.rt = TRUE, !.sup = {"y"}] @@ [id |-> "x"]>>,         \* the reference type
    S |-> <<[N0 EXCEPT !.rt = TRUE, !.sup = {"H"}] @@ [id |-> "y"]>>,         \* its supertype
    B |-> <<[N0 EXCEPT !.par = {"ext"}] @@ [id |-> "b"]>>,                    \* breaks off behind the node
    M |-> <<>>]                                                               \* there is no file
Bad == {"B", "M"}
VARIABLES st, hist
vars == <<st, hist>>
None == [live |-> FALSE, done |-> {}, waiting |-> <<>>, rts |-> <<>>, sorter |-> <<>>, hier |-> {"H"}, plain |-> {}, out |-> {}, imps |-> <<>>, ret |-> TRUE, fresh |-> FALSE,
         lack |-> {}]            \* supertypes that a sort had to do without
Fresh == [None EXCEPT !.live = TRUE]
Known(s) == s.hier \cup s.plain
Init == st = [x \in Loaders |-> None] /\ hist = <<>>
Log(x, op) == hist' = Append(hist, <<x, op>>)

(* the service is told about a reference type *)
Tell(s, n) == IF n.sup \cap s.hier # {} THEN [s EXCEPT !.hier = @ \cup {n.id}] ELSE [s EXCEPT !.plain = @ \cup {n.id}]
Ids(q) == {q[i].id : i \in DOMAIN q}
Add(s, n) == IF n.id \in Ids(s.sorter) THEN s ELSE [s EXCEPT !.sorter = Append(@, n)]
Vias(n) == {v[1] : v \in n.via}
Ended(s, n) == IF n.rt THEN (IF n.sup \subseteq Known(s) THEN Tell(Add(s, n), n) ELSE [s EXCEPT !.rts = Append(@, n)])
              ELSE IF Vias(n) \subseteq Known(s) THEN Add(s, n) ELSE [s EXCEPT !.waiting = Append(@, n)]
RECURSIVE Feed(_, _)
Feed(s, q) == IF q = <<>> THEN s ELSE Feed(Ended(s, Head(q)), Tail(q))
(* one reference type after the other, best known first *)
RECURSIVE Lookup(_)
Lookup(s) ==
    IF s.rts = <<>> THEN s
    ELSE LET ok == {i \in DOMAIN s.rts : s.rts[i].sup \subseteq Known(s)}
             free == {i \in DOMAIN s.rts : ~ \E j \in DOMAIN s.rts : s.rts[j].id \in s.rts[i].sup}
             i == CHOOSE j \in DOMAIN s.rts : (ok # {} => j \in ok) /\ (ok = {} /\ free # {} => j \in free)
             n == s.rts[i]
         IN Lookup(Tell([s EXCEPT !.rts = [j \in 1..(Len(@) - 1) |-> IF j < i THEN @[j] ELSE @[j + 1]], !.waiting = Append(@, n)], n))
Rel(ns, hier) == UNION {{<<a, n.id>> : a \in n.par \cup n.sup \cup {v[2] : v \in {w \in n.via : w[1] \in hier}}} : n \in ns}
RECURSIVE Addall(_, _)
Addall(s, q) == IF q = <<>> THEN s ELSE Addall(Add(s, Head(q)), Tail(q))
SortStep(s) ==
    LET t == [Lookup(s) EXCEPT !.lack = @ \cup (UNION {s.rts[i].sup : i \in DOMAIN s.rts} \ (Known(s) \cup Ids(s.rts)))]
    IN IF \E i \in DOMAIN t.waiting : ~ Vias(t.waiting[i]) \subseteq Known(t) THEN [t EXCEPT !.ret = FALSE, !.fresh = TRUE]
       ELSE LET u == [Addall(t, t.waiting) EXCEPT !.waiting = <<>>]
                E == Rel(Range(u.sorter), u.hier)
                bad == OnCycle(E)
                stuck == {e[2] : e \in Core(E)}
            IN [u EXCEPT !.out = Ids(u.sorter) \ stuck, !.ret = bad = {}, !.fresh = TRUE]

New(x) == ~st[x].live /\ st' = [st EXCEPT ![x] = Fresh] /\ Log(x, "new")
Import(x, f) == /\ st[x].live /\ f \notin st[x].done /\ Ids(File[f]) \cap st[x].lack = {}
                /\ st' = [st EXCEPT ![x] = [Feed(@, File[f]) EXCEPT !.done = @ \cup {f}, !.imps = Append(@, f), !.ret = f \notin Bad, !.fresh = FALSE]]
                /\ Log(x, f)
Sort(x) == st[x].live /\ st' = [st EXCEPT ![x] = SortStep(@)] /\ Log(x, "sort")
Dump(x) == st[x].live /\ hist[Len(hist)][2] # "dump" /\ UNCHANGED st /\ Log(x, "dump")
Del(x) == st[x].live /\ st' = [st EXCEPT ![x] = None] /\ Log(x, "del")
Next == Len(hist) < K /\ \E x \in Loaders : New(x) \/ (\E f \in Kinds : Import(x, f)) \/ Sort(x) \/ Dump(x) \/ Del(x)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ what the files mean *)
NodesIn(s) == UNION {Range(File[f]) : f \in Range(s.imps)}
RECURSIVE HierOf(_, _)
HierOf(ns, H) == LET G == H \cup {n.id : n \in {m \in ns : m.rt /\ m.sup \cap H # {}}} IN IF G = H THEN H ELSE HierOf(ns, G)
AllKnown(ns) == \A n \in ns : Vias(n) \subseteq {m.id : m \in {k \in ns : k.rt}}
(* of declarations of the same node the first counts, which the choice below leaves open *)
Meant(s) == {F \in SUBSET NodesIn(s) : {n.id : n \in F} = {n.id : n \in NodesIn(s)} /\ Cardinality(F) = Cardinality({n.id : n \in NodesIn(s)})}
SortRight == \A x \in Loaders : LET s == st[x] IN s.fresh =>
    LET good(F) == AllKnown(F) /\ Acyclic(Rel(F, HierOf(F, {"H"})))
    IN /\ s.ret => \E F \in Meant(s) : good(F) /\ s.out = {n.id : n \in F}
       /\ ~s.ret => \E F \in Meant(s) : ~good(F)
NothingElse == \A x \in Loaders : LET s == st[x] IN s.out \subseteq {n.id : n \in NodesIn(s)}
(* nothing is lost between the calls *)
NothingLost == \A x \in Loaders : LET s == st[x] IN {n.id : n \in NodesIn(s)} = Ids(s.sorter) \cup Ids(s.waiting) \cup Ids(s.rts)
(* the reference service has the right idea of every reference type *)
KnownRight == \A x \in Loaders : st[x].fresh => st[x].hier = HierOf(NodesIn(st[x]), {"H"})
Emit == Len(hist) = K => PrintT("HIST " \o ToJson(hist))
=============================================================================
