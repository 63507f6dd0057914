----------------------------- MODULE IterDesign -----------------------------
(* How the whole store is iterated: shard by shard and row by row, remembering only a selector, a row and a position,
   while shards are split, merged and compacted and entries come, change and go. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS End, NR, Width, Keys, KeySel(_), KeyRow(_), Vals,
          MaxMods,    \* how many modifications may happen during one iteration
          Bugs

VARIABLES tree,   \* the spans <<lo, hi>> of the shards
          at,     \* key -> <<value, slot>>
          it,     \* the iterator
          got,    \* what it has yielded: a sequence of <<key, value>>
          seen,   \* pairs that were there at some time
          stayed, \* pairs that were there all the time
          quiet,  \* nothing was modified
          mods, bad
vars == <<tree, at, it, got, seen, stayed, quiet, mods, bad>>

None == <<>>
Bug(b) == b \in Bugs
NoIt == [pc |-> "none"]
SpanOf(x) == CHOOSE sp \in tree : sp[1] <= x /\ x < sp[2]
InRow(sp, r) == {k \in Keys : at[k] /= None /\ KeyRow(k) = r /\ sp[1] <= KeySel(k) /\ KeySel(k) < sp[2]}
Pair(k) == <<k, at[k][1]>>
Pairs == {Pair(k) : k \in {j \in Keys : at[j] /= None}}
\* the entries of a row from a position on, in the order of their slots: <<slot, pair>>
RECURSIVE BySlot(_)
BySlot(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : \A y \in ks : at[x][2] <= at[y][2] IN << <<at[k][2], Pair(k)>> >> \o BySlot(ks \ {k})
ReadRow(sp, r, from) == BySlot({k \in InRow(sp, r) : at[k][2] > from})

\* --- the iterator. A step is what it does between two reads, or hands out one entry of the row that was read
Fresh(sel, row, entry) == [pc |-> "run", sel |-> sel, row |-> row, entry |-> entry, end |-> 0, buf |-> <<>>, loaded |-> FALSE]
Start == /\ it = NoIt
         /\ it' = Fresh(0, 0, 0) /\ got' = <<>> /\ seen' = Pairs /\ stayed' = Pairs /\ quiet' = TRUE /\ mods' = 0
         /\ UNCHANGED <<tree, at, bad>>
HandOut == /\ it.pc = "run" /\ it.buf /= <<>>
           /\ it' = [it EXCEPT !.entry = it.buf[1][1], !.buf = Tail(@)]
           /\ got' = Append(got, it.buf[1][2])
           /\ UNCHANGED <<tree, at, seen, stayed, quiet, mods, bad>>
MinOf(a, b) == IF a <= b THEN a ELSE b
Advance(i) ==
  LET i1 == IF i.loaded THEN [i EXCEPT !.loaded = FALSE, !.entry = 0, !.row = @ + 1] ELSE i
  IN IF i1.row >= NR THEN [i1 EXCEPT !.row = 0, !.sel = IF i1.end = 0 THEN End ELSE i1.end, !.end = 0] ELSE i1
Load == /\ it.pc = "run" /\ it.buf = <<>>
        /\ LET i == Advance(it) IN
           IF i.sel >= End THEN it' = [i EXCEPT !.pc = "done"]
           ELSE LET sp == SpanOf(i.sel)  row == ReadRow(sp, i.row, i.entry)  one == Bug("one_entry_at_a_time") /\ row /= <<>> IN
                it' = [i EXCEPT !.buf = IF one THEN <<row[1]>> ELSE row,
                                !.end = IF Bug("first_span_kept") /\ i.end /= 0 THEN i.end
                                        ELSE IF Bug("last_span_used") \/ i.end = 0 THEN sp[2] ELSE MinOf(i.end, sp[2]),
                                !.loaded = ~one]
        /\ UNCHANGED <<tree, at, got, seen, stayed, quiet, mods, bad>>
\* the iterator is dropped and another one made from its cookie (with nothing modified so far)
Resume == /\ it.pc \in {"run", "done"} /\ quiet
          /\ it' = Fresh(IF it.sel = End /\ Bug("cookie_wraps") THEN 0 ELSE it.sel, it.row, it.entry)
          /\ it' /= it
          /\ UNCHANGED <<tree, at, got, seen, stayed, quiet, mods, bad>>
Finish == /\ it.pc = "done"
          /\ bad' = (bad \/ ~({got[i] : i \in DOMAIN got} \subseteq seen)
                         \/ ~(stayed \subseteq {got[i] : i \in DOMAIN got})
                         \/ (quiet /\ (Len(got) /= Cardinality(stayed) \/ stayed /= Pairs)))
          /\ it' = NoIt /\ got' = <<>> /\ seen' = {} /\ stayed' = {} /\ quiet' = TRUE /\ mods' = 0
          /\ UNCHANGED <<tree, at>>

\* --- modifications
\* (between taking a cookie and reading on from it nothing may change: only the position is remembered, not the shard)
Resumed == it.pc = "run" /\ it.end = 0 /\ (it.row > 0 \/ it.entry > 0)
Changes(newat) == /\ at' = newat /\ ~Resumed
                  /\ LET now == {<<k, newat[k][1]>> : k \in {j \in Keys : newat[j] /= None}} IN
                     /\ seen' = IF it = NoIt THEN {} ELSE seen \cup now
                     /\ stayed' = IF it = NoIt THEN {} ELSE stayed \cap now
                  /\ quiet' = (it = NoIt)
                  /\ (it /= NoIt => mods < MaxMods) /\ mods' = IF it = NoIt THEN 0 ELSE mods + 1
FreeSlots(k) == (1..Width) \ {at[j][2] : j \in InRow(SpanOf(KeySel(k)), KeyRow(k))}
Set(k, v) == /\ IF at[k] /= None THEN Changes([at EXCEPT ![k] = <<v, at[k][2]>>])
                ELSE /\ FreeSlots(k) /= {}
                     /\ Changes([at EXCEPT ![k] = <<v, CHOOSE s \in FreeSlots(k) : \A t \in FreeSlots(k) : s <= t>>])
             /\ UNCHANGED <<tree, it, got, bad>>
Remove(k) == at[k] /= None /\ Changes([at EXCEPT ![k] = None]) /\ UNCHANGED <<tree, it, got, bad>>
\* entries are copied to the first free slots of their rows
RECURSIVE Pack(_, _, _)
Pack(f, ks, n) == IF ks = {} THEN f
                  ELSE LET k == CHOOSE x \in ks : \A y \in ks : at[x][2] < at[y][2] \/ (at[x][2] = at[y][2] /\ (KeySel(x) < KeySel(y) \/ x = y))
                       IN Pack([f EXCEPT ![k] = <<at[k][1], n>>], ks \ {k}, n + 1)
RECURSIVE PackRows(_, _, _)
PackRows(f, sp, r) == IF r = NR THEN f ELSE PackRows(Pack(f, InRow(sp, r), 1), sp, r + 1)
Mid(sp) == (sp[1] + sp[2]) \div 2
Split(sp) == /\ sp[2] - sp[1] > 1
             /\ tree' = (tree \ {sp}) \cup {<<sp[1], Mid(sp)>>, <<Mid(sp), sp[2]>>}
             /\ Changes(PackRows(PackRows(at, <<sp[1], Mid(sp)>>, 0), <<Mid(sp), sp[2]>>, 0))
             /\ UNCHANGED <<it, got, bad>>
Merge(sp) == /\ sp \notin tree /\ <<sp[1], Mid(sp)>> \in tree /\ <<Mid(sp), sp[2]>> \in tree
             /\ \A r \in 0..(NR - 1) : Cardinality(InRow(sp, r)) <= Width
             /\ tree' = (tree \ {<<sp[1], Mid(sp)>>, <<Mid(sp), sp[2]>>}) \cup {sp}
             /\ Changes(PackRows(at, sp, 0))
             /\ UNCHANGED <<it, got, bad>>
\* one row of a compaction
Compact(sp, r) == /\ Changes(Pack(at, InRow(sp, r), 1)) /\ at' /= at /\ UNCHANGED <<tree, it, got, bad>>

Spans == {sp \in {<<0, End>>} \cup {<<i * w, (i + 1) * w>> : i \in 0..(End - 1), w \in {x \in 1..End : End % x = 0 /\ x \in {1, 2, 4}}} : sp[2] <= End}
Init == /\ tree = {<<0, End>>} /\ at = [k \in Keys |-> None] /\ it = NoIt /\ got = <<>> /\ seen = {} /\ stayed = {} /\ quiet = TRUE /\ mods = 0 /\ bad = FALSE
Next == /\ ~bad
        /\ \/ Start \/ HandOut \/ Load \/ Resume \/ Finish
           \/ \E k \in Keys : Remove(k) \/ \E v \in Vals : Set(k, v)
           \/ \E sp \in tree : Split(sp) \/ \E r \in 0..(NR - 1) : Compact(sp, r)
           \/ \E sp \in Spans : Merge(sp)
Spec == Init /\ [][Next]_vars

YieldsRight == ~bad
\* an iteration comes to an end: the selector grows whenever all rows were read
Ends == it.pc = "run" => it.sel <= End /\ (it.end = 0 \/ it.end > it.sel)

KeySel1(k) == CASE k = "a" -> 0 [] k = "b" -> 1 [] k = "c" -> 2 [] k = "d" -> 3
KeyRow1(k) == CASE k = "a" -> 0 [] k = "b" -> 1 [] k = "c" -> 0 [] k = "d" -> 1
KeySel2(k) == CASE k = "a" -> 0 [] k = "b" -> 1 [] k = "c" -> 1 [] k = "d" -> 0
KeyRow2(k) == 0
=============================================================================
