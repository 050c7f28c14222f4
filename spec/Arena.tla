------------------------------- MODULE Arena -------------------------------
(* The string arena of the loader (src/CharAllocator.c): a bump allocator     *)
(* over a growing list of zeroed regions. Only the last block handed out can  *)
(* grow. The actions follow the code; the invariants are property C16.        *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Initial,      \* size of the first region
          Sizes,        \* request sizes that do not depend on the state
          MaxOps        \* length of the explored histories

VARIABLES regions,      \* sequence of [cap, size, mem], mem: offset -> content
          user,         \* [reg, off, len]: the last block, it can grow
          blocks,       \* handed out blocks [reg, off, len, tag], oldest first
          ops           \* history of requests <<kind, size>>
vars == <<regions, user, blocks, ops>>

ZeroMem(n) == [i \in 0..(n - 1) |-> 0]
RegionSize(req) == IF req > Initial THEN 2 * req ELSE Initial
Cur == Len(regions)
Fits(n) == regions[Cur].size + n <= regions[Cur].cap
Room == regions[Cur].cap - regions[Cur].size

(* the caller fills the block it got with a value of its own *)
Fill(rs, b) == [rs EXCEPT ![b.reg].mem =
    [i \in DOMAIN rs[b.reg].mem |-> IF i >= b.off /\ i < b.off + b.len THEN b.tag ELSE rs[b.reg].mem[i]]]

Init == /\ regions = <<[cap |-> Initial, size |-> 0, mem |-> ZeroMem(Initial)]>>
        /\ user = [reg |-> 1, off |-> 0, len |-> 0]
        /\ blocks = <<>>
        /\ ops = <<>>

Malloc(n) ==
    LET rs == IF Fits(n) THEN regions
              ELSE Append(regions, [cap |-> RegionSize(n), size |-> 0, mem |-> ZeroMem(RegionSize(n))])
        r == Len(rs)
        b == [reg |-> r, off |-> rs[r].size, len |-> n, tag |-> Len(blocks) + 1]
    IN /\ \A i \in b.off..(b.off + n - 1) : rs[r].mem[i] = 0         \* C16: zero initialised
       /\ regions' = Fill([rs EXCEPT ![r].size = @ + n], b)
       /\ user' = [reg |-> r, off |-> b.off, len |-> n]
       /\ blocks' = Append(blocks, b)
       /\ ops' = Append(ops, <<"am", n>>)

(* grow the last block by n; it moves if the region has no room left *)
Realloc(n) ==
    /\ blocks # <<>>
    /\ LET cap == RegionSize(n + 2 * user.len)
           old == [i \in 0..(user.len - 1) |-> regions[user.reg].mem[user.off + i]]
           rs == IF Fits(n) THEN [regions EXCEPT ![Cur].size = @ + n]
                 ELSE Append(regions, [cap |-> cap, size |-> user.len + n,
                        mem |-> [i \in 0..(cap - 1) |-> IF i < user.len THEN old[i] ELSE 0]])
           u == IF Fits(n) THEN [user EXCEPT !.len = @ + n]
                ELSE [reg |-> Len(rs), off |-> 0, len |-> user.len + n]
           b == [reg |-> u.reg, off |-> u.off, len |-> u.len, tag |-> Len(blocks)]
       IN /\ regions' = Fill(rs, b)
          /\ user' = u
          /\ blocks' = [blocks EXCEPT ![Len(blocks)] = b]
    /\ ops' = Append(ops, <<"ar", n>>)

(* sizes next to the interesting boundaries *)
Boundary == {Room} \cup (IF Room > 0 THEN {Room - 1} ELSE {}) \cup {Room + 1}
Next == /\ Len(ops) < MaxOps
        /\ \E n \in Sizes \cup Boundary : Malloc(n) \/ Realloc(n)
Spec == Init /\ [][Next]_vars

InBounds == \A i \in DOMAIN blocks : blocks[i].off + blocks[i].len <= regions[blocks[i].reg].cap
Disjoint == \A i, j \in DOMAIN blocks : i # j /\ blocks[i].reg = blocks[j].reg =>
                \/ blocks[i].off + blocks[i].len <= blocks[j].off
                \/ blocks[j].off + blocks[j].len <= blocks[i].off
ContentKept == \A i \in DOMAIN blocks : \A k \in blocks[i].off..(blocks[i].off + blocks[i].len - 1) :
                regions[blocks[i].reg].mem[k] = blocks[i].tag
BumpConsistent == \A r \in DOMAIN regions : regions[r].size <= regions[r].cap
(* growing keeps the address as long as there is room: the bytes behind the last block are free *)
FreshBehind == \A r \in DOMAIN regions : \A k \in regions[r].size..(regions[r].cap - 1) : regions[r].mem[k] = 0
LastCanGrow == blocks # <<>> => user.reg = Cur /\ user.off + user.len = regions[Cur].size
MCView == <<regions, user, blocks, Len(ops)>>
BlocksKept == [][\A i \in DOMAIN blocks : i < Len(blocks) => blocks'[i] = blocks[i]]_vars
=============================================================================
