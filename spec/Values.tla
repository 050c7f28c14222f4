------------------------------- MODULE Values -------------------------------
(* How the value of a structure is written to memory (Value.c): members in    *)
(* the order of the type, an address that moves on by paddings and sizes,     *)
(* elements looked up by name. Checked for every structure of K members and   *)
(* every way to give, leave out or spoil each of them: what is read back at   *)
(* the offsets that C prescribes is what was written, members that are        *)
(* missing are zero, and there is no value at all exactly if some part cannot *)
(* be represented (C22). Every case is replayed on the real code.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Kinds      \* members; "B" byte, "I" 4 bytes, "D" 8 bytes, "A" array, "O" optional, "N" structure <<B, I>>, "U" union of B and I
Size(k) == CASE k = "B" -> 1 [] k \in {"I", "E"} -> 4 [] k \in {"D", "O", "N", "U"} -> 8 [] k \in {"A", "S"} -> 16
Al(k) == CASE k = "B" -> 1 [] k \in {"I", "E", "N", "U"} -> 4 [] OTHER -> 8
(* what the element of a member can be *)
States(k) == {"absent", "good", "empty", "bad"} \cup (IF k = "N" THEN {"first", "second", "badpart"} ELSE IF k = "U" THEN {"second", "zero", "bare", "wrong"} ELSE IF k = "S" THEN {"absent"} ELSE {"twice"})
VARIABLES kinds, sts, odd,      \* the type and the value
          i, adr, mem, status
vars == <<kinds, sts, odd, i, adr, mem, status>>
(* cells of a member of kind k with element s, from its address on: sequence of <<offset, value>> *)
Cells(k, s, v) ==
    CASE k = "O" /\ s = "empty" -> <<<<0, 1>>>>            \* there, but zero
      [] s \in {"absent", "empty", "bad", "badpart", "zero", "wrong"} -> <<>>
      [] k = "N" -> IF s = "good" THEN <<<<0, v>>, <<4, v + 1>>>> ELSE IF s = "first" THEN <<<<0, v>>>> ELSE <<<<4, v + 1>>>>
      [] k = "U" -> IF s = "good" THEN <<<<0, 1>>, <<4, v>>>> ELSE IF s = "bare" THEN <<<<0, 2>>>> ELSE <<<<0, 2>>, <<4, v>>>>
      [] OTHER -> <<<<0, v>>>>
Wrong(s) == s \in {"bad", "badpart", "wrong"}
Val(j) == 10 * j
Up(o, a) == ((o + a - 1) \div a) * a
Pad(j, o) == Up(o, Al(kinds[j])) - o
Init == /\ kinds \in [1..K -> Kinds] /\ sts \in {f \in [1..K -> UNION {States(k) : k \in Kinds}] : \A j \in 1..K : f[j] \in States(kinds[j])}
        /\ odd \in {"", "reverse", "unknown"}
        /\ i = 1 /\ adr = 0 /\ mem = <<>> /\ status = "run"
Put(m, a, cells) == LET new == [x \in {a + c[1] : c \in {cells[j] : j \in DOMAIN cells}} |-> LET c == CHOOSE y \in {cells[j] : j \in DOMAIN cells} : a + y[1] = x IN c[2]]
                    IN new @@ m
Step == /\ status = "run" /\ i <= K
        /\ LET a == adr + Pad(i, adr) IN
           IF Wrong(sts[i]) THEN status' = "none" /\ UNCHANGED <<i, adr, mem>>
           ELSE mem' = Put(mem, a, Cells(kinds[i], sts[i], Val(i))) /\ adr' = a + Size(kinds[i]) /\ i' = i + 1 /\ UNCHANGED status
        /\ UNCHANGED <<kinds, sts, odd>>
Done == status = "run" /\ i > K /\ status' = "value" /\ UNCHANGED <<kinds, sts, odd, i, adr, mem>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
(* where C has the members *)
Offset[j \in 1..K] == IF j = 1 THEN 0 ELSE CHOOSE o \in (Offset[j - 1] + Size(kinds[j - 1]))..(Offset[j - 1] + Size(kinds[j - 1]) + 7) :
    o % Al(kinds[j]) = 0 /\ \A x \in (Offset[j - 1] + Size(kinds[j - 1]))..(o - 1) : x % Al(kinds[j]) # 0
At(x) == IF x \in DOMAIN mem THEN mem[x] ELSE 0
Represented == \A j \in 1..K : ~Wrong(sts[j])
None == status # "none" \/ ~Represented
Value == status = "value" => Represented
Right == status = "value" => \A j \in 1..K : LET o == Offset[j] s == sts[j] v == Val(j) IN
    CASE kinds[j] = "N" -> At(o) = (IF s \in {"good", "first"} THEN v ELSE 0) /\ At(o + 4) = (IF s \in {"good", "second"} THEN v + 1 ELSE 0)
      [] kinds[j] = "U" -> At(o) = (CASE s = "good" -> 1 [] s \in {"second", "bare"} -> 2 [] OTHER -> 0) /\ At(o + 4) = (IF s \in {"good", "second"} THEN v ELSE 0)
      [] kinds[j] = "O" /\ s = "empty" -> At(o) = 1
      [] OTHER -> At(o) = (IF s \in {"good", "twice"} THEN v ELSE 0)
NothingElse == status = "value" => \A x \in DOMAIN mem : \E j \in 1..K : x \in Offset[j]..(Offset[j] + Size(kinds[j]) - 1)
Emit == i = 1 /\ status = "run" => PrintT("VALUE " \o ToJson(<<kinds, sts, odd>>))
=============================================================================
