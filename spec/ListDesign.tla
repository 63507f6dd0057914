----------------------------- MODULE ListDesign -----------------------------
(* How a list is kept: a record with the range of indices, a chain entry per index naming the item, and the items,
   each remembering its index. All three are ordinary entries, every change of one of them is one atomic step, and
   between any two steps the process can die, another call can come (if it does not take the list's lock) or the
   step can fail.

   abs is what the callers were promised: the items in order. It changes with the step that stores or removes an
   item, so every call takes effect at one instant. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Keys, Vals,
          Clients,     \* those that take the list's lock
          Readers,     \* those that iterate without it
          MaxIdx,      \* bound on the indices in use
          Crashes,     \* may the process die
          Fails,       \* may a step fail
          Compacts,    \* is the list compacted
          Bugs

VARIABLES rec, chain, item, cl, rd, abs, lost, bad
vars == <<rec, chain, item, cl, rd, abs, lost, bad>>

None == <<>>
First == 10
Idx == (First)..(First + MaxIdx)
Bug(b) == b \in Bugs
Idle == [pc |-> "idle"]

\* --- what can be seen
KeyAt(i) == IF chain[i] = None THEN None
            ELSE IF item[chain[i][1]] = None THEN None
            ELSE IF item[chain[i][1]][2] /= i /\ ~Bug("index_not_checked") THEN None
            ELSE chain[i]
Range == IF rec = None THEN {} ELSE rec.head..(rec.tail - 1)
RECURSIVE Walk(_, _, _)
Walk(i, to, acc) == IF i >= to THEN acc
                    ELSE Walk(i + 1, to, IF KeyAt(i) = None THEN acc ELSE Append(acc, <<KeyAt(i)[1], item[KeyAt(i)[1]][1]>>))
Shown == IF rec = None THEN <<>> ELSE Walk(rec.head, rec.tail, <<>>)
Fetched(k) == IF item[k] = None THEN None ELSE <<item[k][1]>>

\* --- what was promised
InAbs(k) == {i \in DOMAIN abs : abs[i][1] = k}
AbsOf(k) == IF InAbs(k) = {} THEN None ELSE <<abs[CHOOSE i \in InAbs(k) : TRUE][2]>>
AbsPut(k, v) == IF InAbs(k) = {} THEN Append(abs, <<k, v>>)
                ELSE [i \in DOMAIN abs |-> IF abs[i][1] = k THEN <<k, v>> ELSE abs[i]]
AbsDel(k) == SelectSeq(abs, LAMBDA e : e[1] /= k)

\* --- the steps a call takes once it holds the lock; they depend only on entries nobody else changes meanwhile
SetRec(r) == [t |-> "rec", v |-> r]
SetChain(i, k) == [t |-> "chain", i |-> i, v |-> <<k>>]
DelChain(i) == [t |-> "chain", i |-> i, v |-> None]
SetItem(k, v, i) == [t |-> "item", k |-> k, v |-> <<v, i>>]
DelItem(k) == [t |-> "item", k |-> k, v |-> None]
Ordered(bug, normal, swapped) == IF Bug(bug) THEN swapped ELSE normal

SetSteps(k, v) ==
  IF item[k] /= None THEN <<SetItem(k, v, item[k][2])>>
  ELSE LET i == IF rec = None THEN First ELSE rec.tail
           r == SetRec(IF rec = None THEN [head |-> i, tail |-> i + 1, num |-> 1] ELSE [rec EXCEPT !.tail = @ + 1, !.num = @ + 1])
           c == SetChain(i, k)
           m == SetItem(k, v, i)
       IN IF Bug("item_before_record") THEN <<c, m, r>> ELSE IF Bug("item_before_chain") THEN <<r, m, c>> ELSE <<r, c, m>>

RemSteps(k) ==
  IF item[k] = None THEN <<>>
  ELSE LET i == item[k][2]
           r0 == IF rec = None THEN None ELSE [rec EXCEPT !.num = @ - 1]
           r1 == IF r0 = None THEN None ELSE IF r0.head = i THEN [r0 EXCEPT !.head = @ + 1] ELSE IF r0.tail = i + 1 THEN [r0 EXCEPT !.tail = @ - 1] ELSE r0
           r2 == IF r1 = None THEN None ELSE IF r1.head = r1.tail THEN None ELSE r1
           r == SetRec(r2)  c == DelChain(i)  m == DelItem(k)
       IN IF Bug("record_before_item") THEN <<c, r, m>> ELSE IF Bug("chain_before_item") THEN <<c, m, r>> ELSE <<m, c, r>>

\* the head's (tail's) key
RECURSIVE Find(_, _)
Find(s, fwd) == IF s = {} THEN None
                ELSE LET i == IF fwd THEN CHOOSE x \in s : \A y \in s : x <= y ELSE CHOOSE x \in s : \A y \in s : x >= y
                     IN IF KeyAt(i) /= None THEN KeyAt(i) ELSE IF Bug("pop_stops_at_hole") THEN None ELSE Find(s \ {i}, fwd)
EndOf(s, fwd) == IF s = <<>> THEN None ELSE IF fwd THEN <<s[1][1]>> ELSE <<s[Len(s)][1]>>

RECURSIVE DiscardSteps(_)
DiscardSteps(i) == IF i = rec.tail THEN <<SetRec(None)>>
                   ELSE IF KeyAt(i) = None THEN DiscardSteps(i + 1)
                   ELSE Ordered("discard_chain_first", <<DelItem(KeyAt(i)[1]), DelChain(i)>>, <<DelChain(i), DelItem(KeyAt(i)[1])>>) \o DiscardSteps(i + 1)
RECURSIVE CompactSteps(_, _)
CompactSteps(i, n) == IF i = rec.tail THEN <<SetRec(IF n = rec.tail THEN None ELSE [head |-> rec.tail, tail |-> n, num |-> n - rec.tail])>>
                      ELSE LET k == KeyAt(i) IN
                           IF k = None THEN CompactSteps(i + 1, n)
                           ELSE <<SetChain(n, k[1]), SetItem(k[1], item[k[1]][1], n), DelChain(i)>> \o CompactSteps(i + 1, n + 1)

\* the call of the whole list that is being compacted or discarded and must not be interrupted
Sheltered == \E c \in Clients : cl[c].pc = "steps" /\ cl[c].op = "compact"
Locked == \E c \in Clients : cl[c].pc = "steps"
\* promotion removes and inserts under the lock taken twice
Begin(c, op, steps, then) == cl' = [cl EXCEPT ![c] = IF steps = <<>> /\ then = None THEN Idle ELSE [pc |-> "steps", op |-> op, s |-> steps, then |-> then]]

Free(c) == cl[c].pc = "idle" /\ ~Locked
HasRoom(n) == IF rec = None THEN TRUE ELSE rec.tail + n <= First + MaxIdx
CallSet(c, k, v) == Free(c) /\ HasRoom(1) /\ Begin(c, "set", SetSteps(k, v), None) /\ UNCHANGED <<rec, chain, item, rd, abs, lost, bad>>
CallPromote(c, k, v) == Free(c) /\ HasRoom(1) /\ Begin(c, "promote", RemSteps(k), <<k, v>>) /\ UNCHANGED <<rec, chain, item, rd, abs, lost, bad>>
CallPromote2(c) == cl[c].pc = "steps" /\ cl[c].s = <<>> /\ cl[c].then /= None
                   /\ cl' = [cl EXCEPT ![c] = [pc |-> "again", then |-> cl[c].then]] /\ UNCHANGED <<rec, chain, item, rd, abs, lost, bad>>
CallPromote3(c) == cl[c].pc = "again" /\ ~Locked /\ HasRoom(1)
                   /\ Begin(c, "set", SetSteps(cl[c].then[1], cl[c].then[2]), None) /\ UNCHANGED <<rec, chain, item, rd, abs, lost, bad>>
CallRemove(c, k) == Free(c) /\ Begin(c, "remove", RemSteps(k), None) /\ bad' = (bad \/ (Fetched(k) = None) /= (AbsOf(k) = None)) /\ UNCHANGED <<rec, chain, item, rd, abs, lost>>
\* what pop and peek return is decided here, and has to be the promised end of the list
CallPop(c, fwd) ==
  /\ Free(c)
  /\ LET k == Find(Range, fwd) IN
     /\ bad' = (bad \/ k /= EndOf(abs, fwd))
     /\ IF k = None THEN UNCHANGED cl ELSE Begin(c, "pop", RemSteps(k[1]), None)
  /\ UNCHANGED <<rec, chain, item, rd, abs, lost>>
CallDiscard(c) == Free(c) /\ rec /= None /\ Begin(c, "discard", DiscardSteps(rec.head), None) /\ UNCHANGED <<rec, chain, item, rd, abs, lost, bad>>
CallCompact(c) == Compacts /\ Free(c) /\ rec /= None /\ HasRoom(Len(Shown))
                  /\ Begin(c, "compact", CompactSteps(rec.head, rec.tail), None) /\ UNCHANGED <<rec, chain, item, rd, abs, lost, bad>>

Step(c) ==
  /\ cl[c].pc = "steps" /\ cl[c].s /= <<>>
  /\ LET st == cl[c].s[1]  rest == Tail(cl[c].s) IN
     /\ cl' = [cl EXCEPT ![c] = IF rest = <<>> /\ cl[c].then = None THEN Idle ELSE [@ EXCEPT !.s = rest]]
     /\ rec' = IF st.t = "rec" THEN st.v ELSE rec
     /\ chain' = IF st.t = "chain" THEN [chain EXCEPT ![st.i] = st.v] ELSE chain
     /\ item' = IF st.t = "item" THEN [item EXCEPT ![st.k] = st.v] ELSE item
     /\ abs' = IF st.t /= "item" THEN abs ELSE IF st.v = None THEN AbsDel(st.k) ELSE AbsPut(st.k, st.v[1])
     /\ rd' = [r \in Readers |-> IF st.t = "item" /\ rd[r].pc = "iter"
                                 THEN [rd[r] EXCEPT !.stayed = IF st.v = None \/ cl[c].op = "compact" THEN @ \ {st.k} ELSE @,
                                                    !.ever = @ \cup {st.k}]
                                 ELSE rd[r]]
  /\ UNCHANGED <<lost, bad>>

\* --- iterating: the range is read under the lock, the entries are not
IterBegin(r, fwd) ==
  /\ rd[r].pc = "idle" /\ ~Locked /\ rec /= None
  /\ rd' = [rd EXCEPT ![r] = [pc |-> "iter", fwd |-> fwd, lo |-> rec.head, hi |-> rec.tail, got |-> <<>>, at |-> None,
                              stayed |-> {abs[i][1] : i \in DOMAIN abs}, ever |-> {abs[i][1] : i \in DOMAIN abs}, order |-> abs]]
  /\ UNCHANGED <<rec, chain, item, cl, abs, lost, bad>>
\* the chain entry and the item are read one after the other
IterChain(r) ==
  /\ rd[r].pc = "iter" /\ rd[r].at = None /\ rd[r].lo < rd[r].hi
  /\ LET i == IF rd[r].fwd THEN rd[r].lo ELSE rd[r].hi - 1 IN
     rd' = [rd EXCEPT ![r] = [@ EXCEPT !.lo = IF rd[r].fwd THEN @ + 1 ELSE @, !.hi = IF rd[r].fwd THEN @ ELSE @ - 1,
                                       !.at = IF chain[i] = None THEN None ELSE <<chain[i][1], i>>]]
  /\ UNCHANGED <<rec, chain, item, cl, abs, lost, bad>>
IterItem(r) ==
  /\ rd[r].pc = "iter" /\ rd[r].at /= None
  /\ LET k == rd[r].at[1]  i == rd[r].at[2] IN
     rd' = [rd EXCEPT ![r] = [@ EXCEPT !.at = None,
                                       !.got = IF item[k] /= None /\ (item[k][2] = i \/ Bug("index_not_checked")) THEN Append(@, k) ELSE @]]
  /\ UNCHANGED <<rec, chain, item, cl, abs, lost, bad>>
Positions(s, k) == {i \in DOMAIN s : s[i] = k}
IterEnd(r) ==
  /\ rd[r].pc = "iter" /\ rd[r].at = None /\ rd[r].lo = rd[r].hi
  /\ LET g == rd[r].got  st == rd[r].stayed  o == [i \in DOMAIN rd[r].order |-> rd[r].order[i][1]]
         kept == SelectSeq(IF rd[r].fwd THEN o ELSE [i \in DOMAIN o |-> o[Len(o) + 1 - i]], LAMBDA k : k \in st)
     IN bad' = (bad \/ ~({g[i] : i \in DOMAIN g} \subseteq rd[r].ever)           \* nothing that was not there
                    \/ SelectSeq(g, LAMBDA k : k \in st) /= kept)                \* what stayed comes exactly once, in order
  /\ rd' = [rd EXCEPT ![r] = Idle]
  /\ UNCHANGED <<rec, chain, item, cl, abs, lost>>

\* --- dying and failing
Crash == /\ Crashes /\ ~Sheltered /\ (Locked \/ \E c \in Clients : cl[c].pc /= "idle")
         /\ ~\E c \in Clients : cl[c].pc = "again" \/ (cl[c].pc = "steps" /\ cl[c].op = "promote")
         /\ cl' = [c \in Clients |-> Idle] /\ rd' = [r \in Readers |-> Idle] /\ lost' = TRUE
         /\ UNCHANGED <<rec, chain, item, abs, bad>>
StepFails(c) == /\ Fails /\ cl[c].pc = "steps" /\ cl[c].op \notin {"compact", "promote"}
                /\ cl' = [cl EXCEPT ![c] = Idle] /\ lost' = TRUE
                /\ UNCHANGED <<rec, chain, item, rd, abs, bad>>

Init == /\ rec = None /\ chain = [i \in Idx |-> None] /\ item = [k \in Keys |-> None]
        /\ cl = [c \in Clients |-> Idle] /\ rd = [r \in Readers |-> Idle] /\ abs = <<>> /\ lost = FALSE /\ bad = FALSE
Next == /\ ~bad
        /\ \/ \E c \in Clients : \/ \E k \in Keys : CallRemove(c, k) \/ \E v \in Vals : CallSet(c, k, v) \/ CallPromote(c, k, v)
                                 \/ \E fwd \in BOOLEAN : CallPop(c, fwd)
                                 \/ CallDiscard(c) \/ CallCompact(c) \/ CallPromote2(c) \/ CallPromote3(c) \/ Step(c) \/ StepFails(c)
           \/ \E r \in Readers : (\E fwd \in BOOLEAN : IterBegin(r, fwd)) \/ IterChain(r) \/ IterItem(r) \/ IterEnd(r)
           \/ Crash
Spec == Init /\ [][Next]_vars

\* --- what has to hold
ReturnsRight == ~bad
\* fetching by key gives what was promised, at every instant
FetchRight == \A k \in Keys : Fetched(k) = AbsOf(k)
\* and so does iteration (unless the list is being compacted, when only calls that take the lock are served)
ShowRight == ~Sheltered => Shown = abs
\* nothing is left that could not be removed
NoOrphan == \A k \in Keys : item[k] /= None => rec /= None /\ (Sheltered \/ item[k][2] \in Range)
\* the length is exact between calls if nothing was interrupted, and otherwise never too small
Settled == \A c \in Clients : cl[c].pc \in {"idle", "again"}
LengthRight == LET n == IF rec = None THEN 0 ELSE rec.num IN
               /\ ~Sheltered => (n >= Len(abs) \/ (rec = None /\ abs = <<>>))
               /\ Settled /\ ~lost => n = Len(abs)
\* holes() and num_items never underflow
NoUnderflow == rec /= None => rec.head < rec.tail /\ rec.num <= rec.tail - rec.head /\ (rec.num > 0 \/ Len(abs) = 0)
=============================================================================
