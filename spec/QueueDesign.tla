----------------------------- MODULE QueueDesign -----------------------------
(* How a queue (and with it a big value, whose chunks are a queue) is kept: a record with the range of indices and
   the number of items, and one entry per index. Every change of an entry is one atomic step; between two steps the
   process can die, a step can fail, and calls that don't take the queue's lock can read.

   abs is what the callers were promised: index -> value. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Vals, Clients, Readers, MaxIdx, Crashes, Fails, Bugs

VARIABLES rec, item, cl, rd, abs, lost, bad
vars == <<rec, item, cl, rd, abs, lost, bad>>

None == <<>>
First == 50
Idx == (First - MaxIdx)..(First + MaxIdx)
Bug(b) == b \in Bugs
Idle == [pc |-> "idle"]
Range == IF rec = None THEN {} ELSE {i \in Idx : rec.head <= i /\ i < rec.tail}
\* the part of abs or of what is stored, within the range
Shown == [i \in {j \in Range : item[j] /= None} |-> item[i]]
Put(fn, x, v) == [y \in DOMAIN fn \cup {x} |-> IF y = x THEN v ELSE fn[y]]
Drop(fn, x) == [y \in DOMAIN fn \ {x} |-> fn[y]]
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y

\* p: what becomes promised with this step ("add": these items, "del": this index)
SetRec(r, add) == [t |-> "rec", v |-> r, add |-> add]
SetItem(i, v) == [t |-> "item", i |-> i, v |-> <<v>>]
DelItem(i) == [t |-> "item", i |-> i, v |-> None]
NoItems == <<>>

PushSteps(v, tail) ==
  LET r == IF rec = None THEN [head |-> First, tail |-> First + 1, num |-> 1]
           ELSE IF tail THEN [rec EXCEPT !.tail = @ + 1, !.num = @ + 1] ELSE [rec EXCEPT !.head = @ - 1, !.num = @ + 1]
      i == IF rec = None THEN First ELSE IF tail THEN rec.tail ELSE r.head
      ss == <<SetItem(i, v), SetRec(r, i :> v)>>
  IN IF Bug("record_before_item") THEN <<ss[2], ss[1]>> ELSE ss

\* popping skips holes
PopSteps(tail) ==
  LET there == {i \in Range : item[i] /= None}
      i == IF tail THEN MaxOf(there) ELSE MinOf(there)
      r == IF there = {} THEN None
           ELSE IF tail THEN [rec EXCEPT !.tail = i, !.num = @ - 1] ELSE [rec EXCEPT !.head = i + 1, !.num = @ - 1]
      out == SetRec(IF r = None THEN None ELSE IF r.head = r.tail THEN None ELSE r, NoItems)
  IN IF there = {} THEN <<out>>
     ELSE IF Bug("pop_record_first") THEN <<out, DelItem(i)>>
     ELSE IF Bug("pop_keeps_item") THEN <<out>>
     ELSE <<DelItem(i), out>>

InRange(i) == rec /= None /\ (Bug("remove_unchecked") \/ i \in Range)
RemoveSteps(i) ==
  IF ~InRange(i) \/ item[i] = None THEN <<>>
  ELSE LET r == IF rec.head = i THEN [rec EXCEPT !.head = @ + 1, !.num = @ - 1]
                ELSE IF rec.tail = i + 1 THEN [rec EXCEPT !.tail = @ - 1, !.num = @ - 1] ELSE [rec EXCEPT !.num = @ - 1]
           out == SetRec(IF r.head = r.tail THEN None ELSE r, NoItems)
       IN IF Bug("pop_record_first") THEN <<out, DelItem(i)>> ELSE <<DelItem(i), out>>

\* the empty record comes first, the items are part of the queue only with the last step
ExtendSteps(vs) ==
  LET r0 == IF rec = None THEN [head |-> First, tail |-> First, num |-> 0] ELSE rec
      n == Len(vs)
      r1 == [r0 EXCEPT !.tail = @ + n, !.num = @ + n]
      items == [j \in 1..n |-> SetItem(r0.tail + j - 1, vs[j])]
      out == <<SetRec(r1, [i \in r0.tail..(r0.tail + n - 1) |-> vs[i - r0.tail + 1]])>>
  IN (IF rec = None THEN <<SetRec(r0, NoItems)>> ELSE <<>>) \o (IF Bug("extend_record_first") THEN out \o items ELSE items \o out)

RECURSIVE Dels(_, _)
Dels(i, to) == IF i >= to THEN <<>> ELSE <<DelItem(i)>> \o Dels(i + 1, to)
DiscardSteps == LET ds == Dels(rec.head, rec.tail)  out == <<SetRec(None, NoItems)>>
                IN IF Bug("discard_record_first") THEN out \o ds ELSE ds \o out

Locked == \E c \in Clients : cl[c].pc = "steps"
Free(c) == cl[c].pc = "idle" /\ ~Locked
Begin(c, op, steps, then) == cl' = [cl EXCEPT ![c] = IF steps = <<>> /\ then = None THEN Idle ELSE [pc |-> "steps", op |-> op, s |-> steps, then |-> then]]
RoomAhead == IF rec = None THEN TRUE ELSE rec.head > First - MaxIdx
RoomBehind(n) == IF rec = None THEN n <= MaxIdx + 1 ELSE rec.tail + n <= First + MaxIdx + 1
Others == UNCHANGED <<rec, item, rd, abs, lost>>
CallPush(c, v, tail) == Free(c) /\ (IF tail THEN RoomBehind(1) ELSE RoomAhead) /\ Begin(c, "push", PushSteps(v, tail), None) /\ Others /\ UNCHANGED bad
\* what a pop or a peek returns is settled here
CallPop(c, tail) ==
  /\ Free(c) /\ rec /= None
  /\ LET there == {i \in Range : item[i] /= None} IN
     bad' = (bad \/ (there = {}) /= (abs = <<>>)
                 \/ (there /= {} /\ abs /= <<>> /\ LET i == IF tail THEN MaxOf(there) ELSE MinOf(there)  j == IF tail THEN MaxOf(DOMAIN abs) ELSE MinOf(DOMAIN abs)
                                                    IN i /= j \/ item[i] /= <<abs[j]>>))
  /\ Begin(c, "pop", PopSteps(tail), None) /\ Others
CallRemove(c, i) == /\ Free(c)
                    /\ bad' = (bad \/ (RemoveSteps(i) = <<>>) /= (i \notin DOMAIN abs))
                    /\ Begin(c, "remove", RemoveSteps(i), None) /\ Others
CallExtend(c, vs) == Free(c) /\ RoomBehind(Len(vs)) /\ Begin(c, "extend", ExtendSteps(vs), None) /\ Others /\ UNCHANGED bad
CallDiscard(c) == Free(c) /\ rec /= None /\ Begin(c, "discard", DiscardSteps, None) /\ Others /\ UNCHANGED bad
\* writing a big value: discarding the old one and extending, each under the lock
CallSetBig(c, vs) == Free(c) /\ Begin(c, "big", IF rec = None THEN <<>> ELSE DiscardSteps, <<vs>>) /\ Others /\ UNCHANGED bad
BigUnlocks(c) == cl[c].pc = "steps" /\ cl[c].s = <<>> /\ cl[c].then /= None
                 /\ cl' = [cl EXCEPT ![c] = [pc |-> "again", vs |-> cl[c].then[1]]] /\ Others /\ UNCHANGED bad
BigGoesOn(c) == cl[c].pc = "again" /\ ~Locked /\ RoomBehind(Len(cl[c].vs)) /\ Begin(c, "extend", ExtendSteps(cl[c].vs), None) /\ Others /\ UNCHANGED bad

Step(c) ==
  /\ cl[c].pc = "steps" /\ cl[c].s /= <<>>
  /\ LET st == cl[c].s[1]  rest == Tail(cl[c].s)
         gone == st.t = "item" /\ st.v = None /\ cl[c].op \in {"pop", "remove", "discard", "big"}
     IN
     /\ cl' = [cl EXCEPT ![c] = IF rest = <<>> /\ cl[c].then = None THEN Idle ELSE [@ EXCEPT !.s = rest]]
     /\ rec' = IF st.t = "rec" THEN st.v ELSE rec
     /\ item' = IF st.t = "item" THEN [item EXCEPT ![st.i] = st.v] ELSE item
     /\ abs' = IF st.t = "rec" THEN [i \in DOMAIN abs \cup DOMAIN st.add |-> IF i \in DOMAIN st.add THEN st.add[i] ELSE abs[i]]
               ELSE IF gone THEN Drop(abs, st.i) ELSE abs
     /\ rd' = [r \in Readers |-> IF rd[r].pc = "iter"
                  THEN IF gone THEN [rd[r] EXCEPT !.stayed = @ \ {st.i}] 
                       ELSE IF st.t = "rec" THEN [rd[r] EXCEPT !.ever = @ \cup {<<i, st.add[i]>> : i \in DOMAIN st.add}] ELSE rd[r]
                  ELSE rd[r]]
  /\ UNCHANGED <<lost, bad>>

\* --- iterating: the range is read under the lock, the items are not
IterBegin(r, fwd) ==
  /\ rd[r].pc = "idle" /\ ~Locked /\ rec /= None
  /\ rd' = [rd EXCEPT ![r] = [pc |-> "iter", fwd |-> fwd, lo |-> rec.head, hi |-> rec.tail, got |-> {}, order |-> abs,
                              stayed |-> DOMAIN abs, ever |-> {<<i, abs[i]>> : i \in DOMAIN abs}]]
  /\ UNCHANGED <<rec, item, cl, abs, lost, bad>>
IterNext(r) ==
  /\ rd[r].pc = "iter" /\ rd[r].lo < rd[r].hi
  /\ LET i == IF rd[r].fwd THEN rd[r].lo ELSE rd[r].hi - 1 IN
     rd' = [rd EXCEPT ![r] = [@ EXCEPT !.lo = IF rd[r].fwd THEN @ + 1 ELSE @, !.hi = IF rd[r].fwd THEN @ ELSE @ - 1,
                                       !.got = IF item[i] = None THEN @ ELSE @ \cup {<<i, item[i][1]>>}]]
  /\ UNCHANGED <<rec, item, cl, abs, lost, bad>>
IterEnd(r) ==
  /\ rd[r].pc = "iter" /\ rd[r].lo = rd[r].hi
  /\ bad' = (bad \/ \E i \in rd[r].stayed : <<i, rd[r].order[i]>> \notin rd[r].got)
  /\ rd' = [rd EXCEPT ![r] = Idle]
  /\ UNCHANGED <<rec, item, cl, abs, lost>>

Crash == /\ Crashes /\ \E c \in Clients : cl[c].pc /= "idle"
         /\ cl' = [c \in Clients |-> Idle] /\ rd' = [r \in Readers |-> Idle] /\ lost' = TRUE
         /\ UNCHANGED <<rec, item, abs, bad>>
StepFails(c) == /\ Fails /\ cl[c].pc = "steps"
                /\ cl' = [cl EXCEPT ![c] = Idle] /\ lost' = TRUE
                /\ UNCHANGED <<rec, item, rd, abs, bad>>

Init == /\ rec = None /\ item = [i \in Idx |-> None] /\ cl = [c \in Clients |-> Idle] /\ rd = [r \in Readers |-> Idle]
        /\ abs = <<>> /\ lost = FALSE /\ bad = FALSE
Chunks == {<<v>> : v \in Vals} \cup {<<v, w>> : v \in Vals, w \in Vals}
Next == /\ ~bad
        /\ \/ \E c \in Clients : \/ \E tail \in BOOLEAN : CallPop(c, tail) \/ \E v \in Vals : CallPush(c, v, tail)
                                 \/ \E i \in Idx : CallRemove(c, i)
                                 \/ \E vs \in Chunks \cup {<<>>} : CallExtend(c, vs)
                                 \/ \E vs \in Chunks : CallSetBig(c, vs)
                                 \/ CallDiscard(c) \/ BigUnlocks(c) \/ BigGoesOn(c) \/ Step(c) \/ StepFails(c)
           \/ \E r \in Readers : (\E fwd \in BOOLEAN : IterBegin(r, fwd)) \/ IterNext(r) \/ IterEnd(r)
           \/ Crash
Spec == Init /\ [][Next]_vars

\* --- what has to hold
ReturnsRight == ~bad
\* what is shown is what was promised, at every instant: removed items never return, interrupted ones never appear
ShowRight == Shown = [i \in DOMAIN abs |-> <<abs[i]>>]
LengthRight == LET n == IF rec = None THEN 0 ELSE rec.num IN
               /\ n >= Cardinality(DOMAIN abs) \/ (rec = None /\ abs = <<>>)
               /\ ~lost /\ (\A c \in Clients : cl[c].pc \in {"idle", "again"}) => n = Cardinality(DOMAIN abs)
\* (a removal that was interrupted leaves num too high for good, so it may even exceed the span)
NoUnderflow == rec /= None => rec.head <= rec.tail
\* one interrupted removal after the other adds nothing new
Bounded == rec /= None => rec.num <= Cardinality(DOMAIN abs) + 2
=============================================================================
