----------------------------- MODULE TraceArena -----------------------------
(* Checks recorded histories of the real arena against the contract (C16).    *)
(* A case is [id, ev]; events carry what the caller can see: the place of the *)
(* block inside the memory obtained from the system, and what it contains.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, blocks, bad
vars == <<c, l, blocks, bad>>
Ev == Cases[c].ev[l]
Over(x, y) == /\ x.blk = y.blk /\ x.len > 0 /\ y.len > 0
              /\ x.off < y.off + y.len /\ y.off < x.off + x.len
(* b may be handed out next to the blocks of bs *)
Ok(b, bs, e) == /\ ~e.nil
                /\ b.len > 0 => e.known /\ b.off + b.len <= e.bsz
                /\ \A i \in DOMAIN bs : ~Over(b, bs[i])
                /\ e.zero /\ e.intact /\ e.after
Fail(why) == bad' = TRUE /\ PrintT("FAIL " \o Cases[c].id \o " event " \o ToString(l) \o ": " \o why)
New == Ev.ev = "anew" /\ blocks' = <<>> /\ UNCHANGED bad
Malloc == /\ Ev.ev = "malloc"
          /\ LET b == [blk |-> Ev.blk, off |-> Ev.off, len |-> Ev.n]
             IN /\ blocks' = Append(blocks, b)
                /\ IF Ok(b, blocks, Ev) THEN UNCHANGED bad ELSE Fail("allocation")
Realloc == /\ Ev.ev = "realloc"
           /\ LET k == Len(blocks)
                  b == [blk |-> Ev.blk, off |-> Ev.off, len |-> Ev.n + (IF k = 0 THEN 0 ELSE blocks[k].len)]
                  rest == IF k = 0 THEN <<>> ELSE SubSeq(blocks, 1, k - 1)
              IN /\ blocks' = Append(rest, b)
                 /\ IF Ok(b, rest, Ev) /\ Ev.kept THEN UNCHANGED bad ELSE Fail("growth")
Delete == Ev.ev = "adel" /\ UNCHANGED blocks /\ IF Ev.live = 0 THEN UNCHANGED bad ELSE Fail("memory not released")
Other == Ev.ev = "done" /\ UNCHANGED <<blocks, bad>>
End == Ev.ev = "end" /\ UNCHANGED blocks /\ IF Ev.how = "ok" THEN UNCHANGED bad ELSE Fail("ended with " \o Ev.how)
Known == {"anew", "malloc", "realloc", "adel", "done", "end"}
Odd == Ev.ev \notin Known /\ UNCHANGED blocks /\ Fail("unexpected event")
Step == /\ c <= Len(Cases) /\ l <= Len(Cases[c].ev)
        /\ (New \/ Malloc \/ Realloc \/ Delete \/ Other \/ End \/ Odd)
        /\ l' = l + 1 /\ UNCHANGED c
NextCase == /\ c < Len(Cases) /\ l > Len(Cases[c].ev)
            /\ c' = c + 1 /\ l' = 1 /\ blocks' = <<>> /\ bad' = FALSE
Init == c = 1 /\ l = 1 /\ blocks = <<>> /\ bad = FALSE
Next == Step \/ NextCase
Spec == Init /\ [][Next]_vars
(* every event of every case is consumed *)
Total[i \in 0..Len(Cases)] == IF i = 0 THEN 0 ELSE Total[i - 1] + Len(Cases[i].ev) + 1
Accepted == TLCGet("stats").diameter = Total[Len(Cases)] 
=============================================================================
