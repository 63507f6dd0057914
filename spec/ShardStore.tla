----------------------------- MODULE ShardStore -----------------------------
(* How the store keeps its keys: shard files in a directory, their rows, splitting, background compaction,
   merging, clearing, creation and recovery. One action per critical section, and within those that change
   files one action per file system call or store into a mapped header, so that the process can die, or (with
   Faults) a call can fail, between any two of them.

   abs is what the callers were promised: changed by the very store that makes a change visible. Whatever
   happens, looking a key up has to give abs. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS End,       \* the number of shard selectors (a power of 2)
          Step,      \* the size of the initial shards' spans
          NR, Width, \* rows in a file, slots in a row
          Keys, KeySel(_), KeyRow(_), Vals,
          Clients, MaxId,
          MaxFaults, \* how many system calls may fail between two recoveries
          Bugs       \* what to get wrong (for showing that it would be noticed)

VARIABLES
  dir,    \* file name <<kind, lo, hi>> -> inode
  ino,    \* inode -> contents
  mode,   \* up, or which part of recovery
  tree,   \* span <<lo, hi>> -> shard, the leaves of the router
  todo,   \* spans still to be opened: <<span, missing>>
  cl,     \* client -> what it is doing
  root,   \* merging and clearing hold the root's lock
  abs, loose, faults, panic

vars == <<dir, ino, mode, tree, todo, cl, root, abs, loose, faults, panic>>

Nil == <<>>      \* an empty slot
None == 0        \* no value
Rows == 0..(NR - 1)
Slots == 1..Width
Spans == {<<lo, hi>> \in (0..(End - 1)) \X (1..End) : lo < hi}
NoRows == [r \in Rows |-> [s \in Slots |-> Nil]]
\* meta: the magic is there; cnt: inserts - removals according to the header; upto: compacted_up_to
Fresh == [meta |-> FALSE, rows |-> NoRows, cnt |-> 0, upto |-> 0]
Formatted == [Fresh EXCEPT !.meta = TRUE]
Free == [Fresh EXCEPT !.upto = 99]     \* an unused inode
Idle == [pc |-> "idle"]
NoRoot == [op |-> "none"]
Bug(b) == b \in Bugs

Name(kind, sp) == <<kind, sp[1], sp[2]>>
Shard(id) == [src |-> id, tgt |-> 0, comp |-> "none", cpc |-> "row", scol |-> 1, tcol |-> 1, first |-> TRUE]
SpanOf(k) == CHOOSE sp \in DOMAIN tree : sp[1] <= KeySel(k) /\ KeySel(k) < sp[2]
Live(f) == {<<r, s>> \in Rows \X Slots : f.rows[r][s] /= Nil}
Content(f) == {f.rows[x[1]][x[2]] : x \in Live(f)}
\* which file a row is found in
FileFor(sh, r) == IF sh.tgt /= 0 /\ r < ino[sh.tgt].upto THEN sh.tgt ELSE sh.src
SlotOf(f, r, k) == {s \in Slots : f.rows[r][s] /= Nil /\ f.rows[r][s][1] = k}
Lookup(k) == LET sh == tree[SpanOf(k)]
                 f == ino[FileFor(sh, KeyRow(k))]
                 ss == SlotOf(f, KeyRow(k), k)
             IN IF ss = {} THEN None ELSE f.rows[KeyRow(k)][CHOOSE s \in ss : TRUE][2]
Readable == [k \in Keys |-> Lookup(k)]

Used == {dir[n] : n \in DOMAIN dir} \cup UNION {{tree[sp].src, tree[sp].tgt} : sp \in DOMAIN tree}
          \cup (IF "ids" \in DOMAIN root THEN root.ids ELSE {}) \cup UNION {IF "ids" \in DOMAIN cl[c] THEN cl[c].ids ELSE {} : c \in Clients}
NewId == CHOOSE i \in 1..MaxId : i \notin Used /\ \A j \in 1..MaxId : j \notin Used => i <= j
HasId(n) == Cardinality((1..MaxId) \ Used) >= n
Drop(fn, x) == [y \in DOMAIN fn \ {x} |-> fn[y]]
Put(fn, x, v) == [y \in DOMAIN fn \cup {x} |-> IF y = x THEN v ELSE fn[y]]
\* renaming over an existing name unlinks what was there
Rename(from, to) == Put(Drop(dir, from), to, dir[from])
\* contents of inodes nobody refers to any longer don't matter
Gc(used, i) == [j \in 1..MaxId |-> IF j \in used THEN i[j] ELSE Free]

\* --- who holds which locks
Busy(c) == cl[c].pc \notin {"idle", "want"}                 \* holds the router's locks (shared or exclusive)
InSpan(c, sp) == Busy(c) /\ cl[c].span = sp
Splitting(sp) == \E c \in Clients : InSpan(c, sp) /\ cl[c].pc \in {"settle", "mkb", "mkt", "copy", "mvb", "mvt", "rm", "swap"}
FilesHeld(sp) == \E c \in Clients : InSpan(c, sp) /\ cl[c].pc = "formatting"      \* files.write()
FilesShared(sp) == \E c \in Clients : InSpan(c, sp) /\ cl[c].pc \in {"ins", "rem"}
RowHeld(sp, r) == \/ \E c \in Clients : InSpan(c, sp) /\ cl[c].pc \in {"ins", "rem"} /\ cl[c].row = r
                  \/ tree[sp].comp = "run" /\ tree[sp].cpc = "copy" /\ ino[tree[sp].tgt].upto = r /\ ~Bug("compaction_ignores_row_lock")
Calls(c) == mode = "up" /\ cl[c].pc = "idle" /\ root = NoRoot
CanOperate(sp, r) == ~Splitting(sp) /\ ~FilesHeld(sp) /\ ~RowHeld(sp, r)

\* --- setting and removing a key
CanSplit(sp, f, exists) == sp[2] - sp[1] > 1 /\ f.cnt > (IF exists THEN 1 ELSE 0)
Stalled(sh) == sh.tgt /= 0 /\ sh.comp = "failed"
After(sp, compact) == IF compact THEN [pc |-> "begin", span |-> sp] ELSE Idle

\* the decisions that depend on sizes are left open: any insertion may find the shard's file too large or too wasteful
Set(c, k, v) ==
  /\ Calls(c)
  /\ LET sp == SpanOf(k)  sh == tree[sp]  r == KeyRow(k)  id == FileFor(sh, r)  f == ino[id]  ss == SlotOf(f, r, k)
         free == {s \in Slots : f.rows[r][s] = Nil}
     IN /\ CanOperate(sp, r)
        /\ \/ \* the file is too large
              /\ sh.tgt = 0 /\ CanSplit(sp, f, ss /= {})
              /\ cl' = [cl EXCEPT ![c] = [pc |-> "want", span |-> sp]]
              /\ UNCHANGED <<ino, abs>>
           \/ /\ ss /= {}
              /\ \E compact \in (IF sh.tgt = 0 THEN BOOLEAN ELSE {Stalled(sh)}) :
                   /\ ino' = [ino EXCEPT ![id].rows[r][CHOOSE s \in ss : TRUE] = <<k, v>>]
                   /\ abs' = [abs EXCEPT ![k] = v]
                   /\ cl' = [cl EXCEPT ![c] = After(sp, compact)]
           \/ /\ ss = {} /\ free /= {}
              /\ \E compact \in (IF sh.tgt = 0 THEN BOOLEAN ELSE {Stalled(sh)}) :
                   /\ ino' = [ino EXCEPT ![id].cnt = @ + 1]
                   /\ cl' = [cl EXCEPT ![c] = [pc |-> "ins", span |-> sp, row |-> r, id |-> id, k |-> k, v |-> v, compact |-> compact,
                                               slot |-> CHOOSE s \in free : \A t \in free : s <= t]]
                   /\ UNCHANGED abs
           \/ \* no room in this row (if it can't be split, the call fails)
              /\ ss = {} /\ free = {} /\ CanSplit(sp, f, FALSE)
              /\ cl' = [cl EXCEPT ![c] = [pc |-> "want", span |-> sp]]
              /\ UNCHANGED <<ino, abs>>
  /\ UNCHANGED <<dir, mode, tree, todo, root, loose, faults, panic>>

\* the signature makes the entry visible
SetVisible(c) ==
  /\ cl[c].pc = "ins"
  /\ ino' = [ino EXCEPT ![cl[c].id].rows[cl[c].row][cl[c].slot] = <<cl[c].k, cl[c].v>>]
  /\ abs' = [abs EXCEPT ![cl[c].k] = cl[c].v]
  /\ cl' = [cl EXCEPT ![c] = After(cl[c].span, cl[c].compact)]
  /\ UNCHANGED <<dir, mode, tree, todo, root, loose, faults, panic>>

Remove(c, k) ==
  /\ Calls(c)
  /\ LET sp == SpanOf(k)  sh == tree[sp]  r == KeyRow(k)  id == FileFor(sh, r)  ss == SlotOf(ino[id], r, k)
     IN /\ CanOperate(sp, r) /\ ss /= {}
        /\ ino' = [ino EXCEPT ![id].rows[r][CHOOSE s \in ss : TRUE] = Nil]
        /\ abs' = [abs EXCEPT ![k] = None]
        /\ cl' = [cl EXCEPT ![c] = [pc |-> "rem", span |-> sp, row |-> r, id |-> id]]
  /\ UNCHANGED <<dir, mode, tree, todo, root, loose, faults, panic>>

RemoveCounted(c) ==
  /\ cl[c].pc = "rem"
  /\ ino' = [ino EXCEPT ![cl[c].id].cnt = @ - 1]
  /\ cl' = [cl EXCEPT ![c] = Idle]
  /\ UNCHANGED <<dir, mode, tree, todo, root, abs, loose, faults, panic>>

\* --- compaction
BeginCompaction(c) ==
  /\ cl[c].pc = "begin"
  /\ LET sp == cl[c].span  sh == tree[sp] IN
     IF sh.tgt /= 0
       THEN \* running already, or failed and picked up again
            /\ IF sh.comp = "run" THEN UNCHANGED tree
               ELSE ~FilesShared(sp) /\ ~FilesHeld(sp)
                    /\ tree' = [tree EXCEPT ![sp] = [Shard(sh.src) EXCEPT !.tgt = sh.tgt, !.comp = "run"]]
            /\ cl' = [cl EXCEPT ![c] = Idle]
            /\ UNCHANGED <<dir, ino>>
       ELSE \/ cl' = [cl EXCEPT ![c] = Idle] /\ UNCHANGED <<dir, ino, tree>>       \* someone else has compacted it
            \/ /\ ~FilesShared(sp) /\ ~FilesHeld(sp) /\ HasId(1)
               /\ dir' = Put(dir, Name("compact", sp), NewId)
               /\ ino' = Gc(Used \cup {NewId}, [ino EXCEPT ![NewId] = Fresh])
               /\ cl' = [cl EXCEPT ![c] = [pc |-> "formatting", span |-> sp]]
               /\ UNCHANGED tree
  /\ UNCHANGED <<mode, todo, root, abs, loose, faults, panic>>

CompactionStarts(c) ==
  /\ cl[c].pc = "formatting"
  /\ LET sp == cl[c].span  id == dir[Name("compact", sp)] IN
     /\ ino' = [ino EXCEPT ![id] = Formatted]
     /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.tgt = id, !.comp = "run", !.cpc = "row", !.first = TRUE]]
     /\ cl' = [cl EXCEPT ![c] = Idle]
  /\ UNCHANGED <<dir, mode, todo, root, abs, loose, faults, panic>>

\* one row after the other, holding its lock; what a copying step does to the files (also used in recovery)
RowStart(src, tgt, first) ==
  LET f == ino[tgt]  r == f.upto  n == Cardinality({s \in Slots : f.rows[r][s] /= Nil}) IN
  IF first /\ ~Bug("interrupted_row_not_restarted") THEN [ino EXCEPT ![tgt] = [f EXCEPT !.rows[r] = NoRows[r], !.cnt = @ - n]] ELSE ino
NextCol(src, r, scol) == IF \E s \in Slots : s >= scol /\ ino[src].rows[r][s] /= Nil
                         THEN CHOOSE s \in Slots : s >= scol /\ ino[src].rows[r][s] /= Nil /\ \A t \in scol..(s - 1) : ino[src].rows[r][t] = Nil
                         ELSE 0
CopyEntry(src, tgt, col, tcol) == [ino EXCEPT ![tgt].rows[ino[tgt].upto][tcol] = ino[src].rows[ino[tgt].upto][col], ![tgt].cnt = @ + 1]
RowDone(tgt) == [ino EXCEPT ![tgt].upto = @ + 1]

Compact(sp) ==
  /\ mode = "up" /\ sp \in DOMAIN tree /\ tree[sp].comp = "run"
  /\ LET sh == tree[sp] IN
     \/ /\ sh.cpc = "row" /\ ino[sh.tgt].upto < NR
        /\ ~(\E c \in Clients : InSpan(c, sp) /\ cl[c].pc \in {"ins", "rem"} /\ cl[c].row = ino[sh.tgt].upto)
        /\ ino' = RowStart(sh.src, sh.tgt, sh.first)
        /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.cpc = "copy", !.scol = 1, !.tcol = 1]]
        /\ UNCHANGED <<dir, panic>>
     \/ /\ sh.cpc = "copy"
        /\ LET col == NextCol(sh.src, ino[sh.tgt].upto, sh.scol) IN
           IF col = 0
             THEN /\ ino' = RowDone(sh.tgt)
                  /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.cpc = "row", !.scol = 1, !.tcol = 1, !.first = FALSE]]
                  /\ UNCHANGED panic
             ELSE /\ panic' = (panic \/ ino[sh.tgt].rows[ino[sh.tgt].upto][sh.tcol] /= Nil)
                  /\ ino' = CopyEntry(sh.src, sh.tgt, col, sh.tcol)
                  /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.scol = col + 1, !.tcol = @ + 1]]
        /\ UNCHANGED dir
     \/ /\ sh.cpc = "row" /\ ino[sh.tgt].upto = NR
        /\ dir' = Rename(Name("compact", sp), Name("shard", sp))
        /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.cpc = "swap"]]
        /\ UNCHANGED <<ino, panic>>
     \/ /\ sh.cpc = "swap" /\ ~FilesShared(sp)
        /\ tree' = [tree EXCEPT ![sp] = Shard(sh.tgt)]
        /\ ino' = Gc(Used \ {sh.src}, ino)
        /\ UNCHANGED <<dir, panic>>
  /\ UNCHANGED <<mode, todo, cl, root, abs, loose, faults>>

\* --- splitting: bottom_ and top_ files are filled, renamed to shard_, and then the old one is removed
SplitStart(c) ==
  /\ mode = "up" /\ cl[c].pc = "want" /\ root = NoRoot
  /\ LET sp == cl[c].span IN
     IF sp \notin DOMAIN tree THEN cl' = [cl EXCEPT ![c] = Idle]        \* already split: retried
     ELSE /\ ~\E d \in Clients : InSpan(d, sp)
          /\ cl' = [cl EXCEPT ![c] = [pc |-> "settle", span |-> sp, ids |-> {}]]
  /\ UNCHANGED <<dir, ino, mode, tree, todo, root, abs, loose, faults, panic>>

\* waits for the compaction, and if it has failed, completes it
Settled(sp) == tree[sp].comp /= "run" /\ tree[sp].tgt = 0
Resettle(sp) == /\ tree[sp].comp = "failed" /\ tree[sp].tgt /= 0
                /\ LET sh == tree[sp] IN tree' = [tree EXCEPT ![sp] = [Shard(sh.src) EXCEPT !.tgt = sh.tgt, !.comp = "run"]]

Lower(sp) == <<sp[1], (sp[1] + sp[2]) \div 2>>
Upper(sp) == <<(sp[1] + sp[2]) \div 2, sp[2]>>
\* what of a file's entries belongs in a span, packed
Pack(row, sp) == LET es == SelectSeq([s \in Slots |-> row[s]], LAMBDA e : e /= Nil /\ sp[1] <= KeySel(e[1]) /\ KeySel(e[1]) < sp[2])
                 IN [s \in Slots |-> IF s <= Len(es) THEN es[s] ELSE Nil]
Half(f, sp) == LET rows == [r \in Rows |-> Pack(f.rows[r], sp)]
               IN [Formatted EXCEPT !.rows = rows, !.cnt = Cardinality({<<r, s>> \in Rows \X Slots : rows[r][s] /= Nil})]

Split(c) ==
  /\ mode = "up" /\ cl[c].pc \in {"settle", "mkb", "mkt", "copy", "mvb", "mvt", "rm", "swap"}
  /\ LET sp == cl[c].span  lo == Lower(sp)  hi == Upper(sp)
         go(pc) == cl' = [cl EXCEPT ![c].pc = pc]
         rmFirst == Bug("split_removes_first")
     IN CASE cl[c].pc = "settle" ->
               IF Settled(sp) \/ Bug("split_does_not_settle")
                 THEN go("mkb") /\ UNCHANGED <<dir, ino, tree>>
                 ELSE Resettle(sp) /\ UNCHANGED <<cl, dir, ino>>
          [] cl[c].pc = "mkb" ->
               /\ HasId(2)
               /\ dir' = Put(dir, Name("bottom", lo), NewId)
               /\ ino' = Gc({dir'[n] : n \in DOMAIN dir'} \cup Used, [ino EXCEPT ![NewId] = Formatted]) /\ go("mkt") /\ UNCHANGED tree
          [] cl[c].pc = "mkt" ->
               /\ HasId(1)
               /\ dir' = Put(dir, Name("top", hi), NewId)
               /\ ino' = Gc({dir'[n] : n \in DOMAIN dir'} \cup Used, [ino EXCEPT ![NewId] = Formatted]) /\ go("copy") /\ UNCHANGED tree
          [] cl[c].pc = "copy" ->
               /\ ino' = [ino EXCEPT ![dir[Name("bottom", lo)]] = Half(ino[tree[sp].src], lo),
                                     ![dir[Name("top", hi)]] = Half(ino[tree[sp].src], hi)]
               /\ go(IF rmFirst THEN "rm" ELSE "mvb") /\ UNCHANGED <<dir, tree>>
          [] cl[c].pc = "mvb" ->
               /\ dir' = Rename(Name("bottom", lo), Name("shard", lo)) /\ go("mvt") /\ UNCHANGED <<ino, tree>>
          [] cl[c].pc = "mvt" ->
               /\ dir' = Rename(Name("top", hi), Name("shard", hi)) /\ go(IF rmFirst THEN "swap" ELSE "rm") /\ UNCHANGED <<ino, tree>>
          [] cl[c].pc = "rm" ->
               /\ dir' = Drop(dir, Name("shard", sp)) /\ go(IF rmFirst THEN "mvb" ELSE "swap") /\ UNCHANGED <<ino, tree>>
          [] cl[c].pc = "swap" ->
               /\ tree' = Put(Put(Drop(tree, sp), lo, Shard(dir[Name("shard", lo)])), hi, Shard(dir[Name("shard", hi)]))
               /\ ino' = Gc({dir[n] : n \in DOMAIN dir} \cup UNION {{tree'[x].src, tree'[x].tgt} : x \in DOMAIN tree'}, ino)
               /\ cl' = [cl EXCEPT ![c] = Idle] /\ UNCHANGED dir
  /\ UNCHANGED <<mode, todo, root, abs, loose, faults, panic>>

\* --- merging two leaves: merge_ is filled and renamed to shard_, and then the old ones are removed
Exclusive == mode = "up" /\ root = NoRoot /\ \A c \in Clients : ~Busy(c)

MergeStart ==
  /\ Exclusive
  /\ \E sp \in Spans : /\ sp[2] - sp[1] > 1 /\ sp[1] % (sp[2] - sp[1]) = 0 /\ Lower(sp) \in DOMAIN tree /\ Upper(sp) \in DOMAIN tree
                       /\ root' = [op |-> "merge", pc |-> "settle", span |-> sp, ids |-> {}]
  /\ UNCHANGED <<dir, ino, mode, tree, todo, cl, abs, loose, faults, panic>>

RowLen(f, r) == Cardinality({s \in Slots : f.rows[r][s] /= Nil})
Both(a, b) == LET rows == [r \in Rows |-> LET es == SelectSeq([s \in Slots |-> a.rows[r][s]], LAMBDA e : e /= Nil)
                                                   \o SelectSeq([s \in Slots |-> b.rows[r][s]], LAMBDA e : e /= Nil)
                                          IN [s \in Slots |-> IF s <= Len(es) THEN es[s] ELSE Nil]]
              IN [Formatted EXCEPT !.rows = rows, !.cnt = Cardinality({<<r, s>> \in Rows \X Slots : rows[r][s] /= Nil})]

Merge ==
  /\ mode = "up" /\ root.op = "merge"
  /\ LET sp == root.span  lo == Lower(sp)  hi == Upper(sp)
         go(pc) == root' = [root EXCEPT !.pc = pc]
         a == ino[tree[lo].src]  b == ino[tree[hi].src]
     IN CASE root.pc = "settle" ->
               IF Settled(lo) /\ Settled(hi) THEN go("mk") /\ UNCHANGED <<dir, ino, tree>>
               ELSE (Resettle(lo) \/ Resettle(hi)) /\ UNCHANGED <<root, dir, ino>>
          [] root.pc = "mk" ->
               /\ HasId(1)
               /\ dir' = Put(dir, Name("merge", sp), NewId)
               /\ ino' = Gc({dir'[n] : n \in DOMAIN dir'} \cup Used, [ino EXCEPT ![NewId] = Formatted]) /\ go("copy") /\ UNCHANGED tree
          [] root.pc = "copy" ->
               IF \E r \in Rows : RowLen(a, r) + RowLen(b, r) > Width
                 THEN /\ dir' = Drop(dir, Name("merge", sp)) /\ root' = NoRoot /\ UNCHANGED <<ino, tree>>
                 ELSE /\ ino' = [ino EXCEPT ![dir[Name("merge", sp)]] = Both(a, b)]
                      /\ go(IF Bug("merge_removes_first") THEN "rmb" ELSE "mv") /\ UNCHANGED <<dir, tree>>
          [] root.pc = "mv" ->
               /\ dir' = Rename(Name("merge", sp), Name("shard", sp))
               /\ go(IF Bug("merge_removes_first") THEN "swap" ELSE "rmb") /\ UNCHANGED <<ino, tree>>
          [] root.pc = "rmb" -> /\ dir' = Drop(dir, Name("shard", lo)) /\ go("rmt") /\ UNCHANGED <<ino, tree>>
          [] root.pc = "rmt" -> /\ dir' = Drop(dir, Name("shard", hi)) /\ go(IF Bug("merge_removes_first") THEN "mv" ELSE "swap") /\ UNCHANGED <<ino, tree>>
          [] root.pc = "swap" ->
               /\ tree' = Put(Drop(Drop(tree, lo), hi), sp, Shard(dir[Name("shard", sp)]))
               /\ ino' = Gc({dir[n] : n \in DOMAIN dir}, ino)
               /\ root' = NoRoot /\ UNCHANGED dir
  /\ UNCHANGED <<mode, todo, cl, abs, loose, faults, panic>>

\* --- clearing: all files are removed, one after the other, and the initial shards created
OurFiles == {n \in DOMAIN dir : n[1] \in {"shard", "compact", "bottom", "top"} \ (IF Bug("clear_keeps_compact") THEN {"compact"} ELSE {})}
Within(a, b) == a /= b /\ b[1] <= a[1] /\ a[2] <= b[2]
Found == {<<n[2], n[3]>> : n \in {x \in DOMAIN dir : x[1] = "shard"}}
InitialSpans == {<<lo, lo + Step>> : lo \in {x \in 0..(End - 1) : x % Step = 0}}
\* what is outdated has to go before what replaced it: a failed compaction's target is newer than its source, and
\* the halves of a failed split are older than the whole
Outdated(n) == \/ Bug("clear_in_any_order")
               \/ IF n[1] = "shard" THEN ~\E sp \in Found : Within(sp, <<n[2], n[3]>>) ELSE Found = {}
Ordered(S) == LET n == Cardinality(S) IN CHOOSE q \in [1..n -> S] : \A i, j \in 1..n : i < j => q[i][1][1] < q[j][1][1]

ClearStart ==
  /\ Exclusive
  /\ \A sp \in DOMAIN tree : tree[sp].comp /= "run"
  /\ root' = [op |-> "clear", pc |-> "remove", ids |-> UNION {{tree[sp].src, tree[sp].tgt} : sp \in DOMAIN tree}]
  /\ UNCHANGED <<dir, ino, mode, tree, todo, cl, abs, loose, faults, panic>>

ClearRemove ==
  /\ mode = "up" /\ root.op = "clear" /\ root.pc = "remove"
  /\ IF OurFiles /= {}
       THEN /\ \E n \in OurFiles : Outdated(n) /\ dir' = Drop(dir, n)
            /\ UNCHANGED <<todo, root>>
       ELSE /\ todo' = Ordered({<<sp, TRUE>> : sp \in InitialSpans})
            /\ root' = [root EXCEPT !.pc = "create"]
            /\ UNCHANGED dir
  /\ UNCHANGED <<ino, mode, tree, cl, abs, loose, faults, panic>>

\* creating the next shard: an empty file first (truncating what there is), then its header
Create(sp) ==
  LET n == Name("shard", sp) IN
  /\ HasId(1)
  /\ dir' = Put(dir, n, NewId)
  /\ ino' = Gc({dir'[x] : x \in DOMAIN dir'} \cup Used, [ino EXCEPT ![NewId] = Fresh])

ClearCreate ==
  /\ mode = "up" /\ root.op = "clear" /\ root.pc \in {"create", "format"}
  /\ IF todo = <<>>
       THEN LET t == [sp \in InitialSpans |-> Shard(dir[Name("shard", sp)])] IN
            /\ tree' = t
            /\ ino' = Gc({dir[x] : x \in DOMAIN dir}, ino)
            /\ abs' = [k \in Keys |-> None] /\ root' = NoRoot /\ UNCHANGED <<dir, todo>>
       ELSE LET sp == todo[1][1] IN
            IF root.pc = "create"
              THEN /\ Create(sp) /\ root' = [root EXCEPT !.pc = "format"] /\ UNCHANGED <<tree, todo, abs>>
              ELSE /\ ino' = [ino EXCEPT ![dir[Name("shard", sp)]] = Formatted]
                   /\ dir' = Drop(dir, Name("compact", sp))
                   /\ todo' = Tail(todo) /\ root' = [root EXCEPT !.pc = "create"] /\ UNCHANGED <<tree, abs>>
  /\ UNCHANGED <<mode, cl, loose, faults, panic>>

\* --- the process dies: memory is lost, the files remain
Crash ==
  /\ mode \in {"up", "scan", "cons", "open"}
  /\ mode = "scan" => dir /= <<>>
  /\ loose' = (loose \/ root.op = "clear")
  /\ mode' = "down" /\ tree' = <<>> /\ todo' = <<>> /\ root' = NoRoot /\ cl' = [c \in Clients |-> Idle] /\ faults' = 0
  /\ ino' = Gc({dir[n] : n \in DOMAIN dir}, ino)
  /\ UNCHANGED <<dir, abs, panic>>

\* --- opening the store
Open == /\ mode = "down" /\ mode' = "scan" /\ UNCHANGED <<dir, ino, tree, todo, cl, root, abs, loose, faults, panic>>

Junk == {n \in DOMAIN dir : n[1] \in {"bottom", "top", "merge"}}
Scan ==
  /\ mode = "scan"
  /\ IF Junk /= {} /\ ~Bug("leftovers_kept") THEN (\E n \in Junk : dir' = Drop(dir, n)) /\ UNCHANGED mode
     ELSE mode' = "cons" /\ UNCHANGED dir
  /\ ino' = Gc({dir'[n] : n \in DOMAIN dir'}, ino)
  /\ UNCHANGED <<tree, todo, cl, root, abs, loose, faults, panic>>

Contained == IF Bug("keeps_the_smaller") THEN {sp \in Found : \E o \in Found : Within(o, sp)} ELSE {sp \in Found : \E o \in Found : Within(sp, o)}
\* compact_ files without their shard are stale
Stray == IF Bug("stray_compact_kept") THEN {} ELSE {n \in DOMAIN dir : n[1] = "compact" /\ <<n[2], n[3]>> \notin Found}
\* the spans nobody covers, as the largest aligned ones that fit
Aligned(sp) == \E e \in 0..16 : sp[2] - sp[1] = 2^e /\ sp[1] % (2^e) = 0
Gaps == LET free == {x \in 0..(End - 1) : \A sp \in Found : ~(sp[1] <= x /\ x < sp[2])}
            fits == {sp \in Spans : Aligned(sp) /\ \A x \in sp[1]..(sp[2] - 1) : x \in free}
        IN {sp \in fits : ~\E o \in fits : Within(sp, o)}

Consolidate ==
  /\ mode = "cons"
  /\ IF Contained /= {} THEN (\E sp \in Contained : dir' = Drop(dir, Name("shard", sp))) /\ UNCHANGED <<mode, todo>>
     ELSE IF Stray /= {} THEN (\E n \in Stray : dir' = Drop(dir, n)) /\ UNCHANGED <<mode, todo>>
     ELSE /\ mode' = "open" /\ UNCHANGED dir
          /\ todo' = IF Found = {} THEN Ordered({<<sp, TRUE>> : sp \in InitialSpans})
                     ELSE Ordered({<<sp, FALSE>> : sp \in Found} \cup (IF Bug("gaps_not_filled") THEN {} ELSE {<<sp, TRUE>> : sp \in Gaps}))
  /\ ino' = Gc({dir'[n] : n \in DOMAIN dir'}, ino)
  /\ UNCHANGED <<tree, cl, root, abs, loose, faults, panic>>

\* the next shard: created if it is missing, formatted if that was interrupted, its compaction completed
OpenNext ==
  /\ mode = "open" /\ todo /= <<>>
  /\ LET sp == todo[1][1]  missing == todo[1][2]  n == Name("shard", sp)  m == Name("compact", sp) IN
     IF sp \notin DOMAIN tree THEN
        IF n \notin DOMAIN dir \/ (missing /\ ino[dir[n]] /= Fresh)
          THEN Create(sp) /\ UNCHANGED <<tree, todo, panic>>
        ELSE /\ ino' = IF ino[dir[n]].meta THEN ino ELSE [ino EXCEPT ![dir[n]] = Formatted]
             /\ tree' = Put(tree, sp, Shard(dir[n]))
             /\ dir' = IF missing THEN Drop(dir, m) ELSE dir
             /\ UNCHANGED <<todo, panic>>
     ELSE IF m \notin DOMAIN dir THEN todo' = Tail(todo) /\ UNCHANGED <<dir, ino, tree, panic>>
     ELSE LET sh == tree[sp]  tgt == dir[m] IN
        \/ /\ ~ino[tgt].meta /\ ino' = [ino EXCEPT ![tgt] = Formatted] /\ UNCHANGED <<dir, tree, todo, panic>>
        \/ /\ ino[tgt].meta /\ ino[tgt].upto < NR /\ sh.cpc = "row"
           /\ ino' = RowStart(sh.src, tgt, sh.first)
           /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.cpc = "copy", !.scol = 1, !.tcol = 1]]
           /\ UNCHANGED <<dir, todo, panic>>
        \/ /\ sh.cpc = "copy"
           /\ LET col == NextCol(sh.src, ino[tgt].upto, sh.scol) IN
              IF col = 0
                THEN /\ ino' = RowDone(tgt) /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.cpc = "row", !.first = FALSE]] /\ UNCHANGED panic
                ELSE /\ panic' = (panic \/ ino[tgt].rows[ino[tgt].upto][sh.tcol] /= Nil)
                     /\ ino' = CopyEntry(sh.src, tgt, col, sh.tcol)
                     /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.scol = col + 1, !.tcol = @ + 1]]
           /\ UNCHANGED <<dir, todo>>
        \/ /\ ino[tgt].meta /\ ino[tgt].upto = NR /\ sh.cpc = "row"
           /\ dir' = Rename(m, n)
           /\ tree' = [tree EXCEPT ![sp] = Shard(tgt)]
           /\ ino' = Gc(({dir'[x] : x \in DOMAIN dir'}) \cup UNION {{tree'[x].src} : x \in DOMAIN tree'}, ino)
           /\ UNCHANGED <<todo, panic>>
  /\ UNCHANGED <<mode, cl, root, abs, loose, faults>>

\* clearing may have been interrupted: then any of the keys may be gone, but nothing else may have changed
Opened ==
  /\ mode = "open" /\ todo = <<>>
  /\ mode' = "up" /\ loose' = FALSE /\ faults' = 0
  /\ panic' = (panic \/ UNION {sp[1]..(sp[2] - 1) : sp \in DOMAIN tree} /= 0..(End - 1))
  /\ abs' = IF loose /\ ~panic' THEN [k \in Keys |-> IF Lookup(k) = None THEN None ELSE abs[k]] ELSE abs
  /\ UNCHANGED <<dir, ino, tree, todo, cl, root>>

\* --- a system call fails: the call that made it returns an error, and the store goes on with what it has
Fails == mode = "up" /\ faults < MaxFaults /\ faults' = faults + 1
Fault ==
  \/ \* while compacting: it's resumed later
     /\ Fails
     /\ \E sp \in DOMAIN tree : /\ tree[sp].comp = "run" /\ tree[sp].cpc \in {"row", "copy"}
                                /\ tree' = [tree EXCEPT ![sp] = [@ EXCEPT !.comp = "failed", !.cpc = "row", !.scol = 1, !.tcol = 1, !.first = TRUE]]
     /\ UNCHANGED <<dir, ino, mode, todo, cl, root, abs, loose, panic>>
  \/ \* a client's: creating the compaction's target, or any step of a split
     /\ Fails
     /\ \E c \in Clients : /\ cl[c].pc \in {"begin", "formatting", "mkb", "mkt", "copy", "mvb", "mvt", "rm"}
                           /\ cl' = [cl EXCEPT ![c] = Idle]
     /\ UNCHANGED <<dir, ino, mode, tree, todo, root, abs, loose, panic>>
  \/ \* merging: once renamed, failing to remove the old ones is ignored
     /\ Fails /\ root.op = "merge"
     /\ IF root.pc \in {"mk", "copy", "mv"} THEN root' = NoRoot
        ELSE root.pc \in {"rmb", "rmt"} /\ root' = [root EXCEPT !.pc = IF @ = "rmb" THEN "rmt" ELSE "swap"]
     /\ UNCHANGED <<dir, ino, mode, tree, todo, cl, abs, loose, panic>>
  \/ \* clearing: what remains is loaded, as in recovery
     /\ Fails /\ root.op = "clear"
     /\ mode' = "scan" /\ tree' = <<>> /\ todo' = <<>> /\ root' = NoRoot /\ loose' = TRUE
     /\ ino' = Gc({dir[n] : n \in DOMAIN dir}, ino)
     /\ UNCHANGED <<dir, cl, abs, panic>>

Init ==
  /\ dir = <<>> /\ ino = [i \in 1..MaxId |-> Free] /\ mode = "down" /\ tree = <<>> /\ todo = <<>>
  /\ cl = [c \in Clients |-> Idle] /\ root = NoRoot
  /\ abs = [k \in Keys |-> None] /\ loose = FALSE /\ faults = 0 /\ panic = FALSE

Next ==
  /\ ~panic
  /\ \/ \E c \in Clients : \/ \E k \in Keys : Remove(c, k) \/ \E v \in Vals : Set(c, k, v)
                           \/ SetVisible(c) \/ RemoveCounted(c) \/ BeginCompaction(c) \/ CompactionStarts(c)
                           \/ SplitStart(c) \/ Split(c)
     \/ \E sp \in Spans : Compact(sp)
     \/ MergeStart \/ Merge \/ ClearStart \/ ClearRemove \/ ClearCreate
     \/ Crash \/ Open \/ Scan \/ Consolidate \/ OpenNext \/ Opened
     \/ Fault

Spec == Init /\ [][Next]_vars

\* --- what has to hold
NoPanic == ~panic
Clearing == root.op = "clear"
\* whatever was acknowledged, and nothing else, is what is read
Correct == mode = "up" /\ ~Clearing => Readable = abs
\* the shards' spans partition the selectors
Covered == mode = "up" => \A x \in 0..(End - 1) : Cardinality({sp \in DOMAIN tree : sp[1] <= x /\ x < sp[2]}) = 1
\* no entry is ever in the wrong row or shard, or twice in a row that is being used
WellPlaced == mode = "up" /\ ~Clearing =>
  \A sp \in DOMAIN tree : \A r \in Rows : LET f == ino[FileFor(tree[sp], r)] IN
     \A s \in Slots : f.rows[r][s] /= Nil =>
        /\ KeyRow(f.rows[r][s][1]) = r /\ sp[1] <= KeySel(f.rows[r][s][1]) /\ KeySel(f.rows[r][s][1]) < sp[2]
        /\ \A t \in Slots : t /= s /\ f.rows[r][t] /= Nil => f.rows[r][t][1] /= f.rows[r][s][1]
\* the headers never claim fewer items than there are (they'd be subtracted from each other)
Counted == \A i \in 1..MaxId : ino[i] /= Free => ino[i].cnt >= Cardinality(Live(ino[i]))
\* every leaf's current file is the one a recovery would find
Anchored == mode = "up" /\ root = NoRoot => \A sp \in DOMAIN tree :
  Splitting(sp) \/ (Name("shard", sp) \in DOMAIN dir /\ dir[Name("shard", sp)] = IF tree[sp].cpc = "swap" THEN tree[sp].tgt ELSE tree[sp].src)
\* a call can always go on: nobody waits for a lock that is never released (a state without any step but a crash)
Stuck == mode = "up" /\ ~panic /\ ~ENABLED (\/ \E c \in Clients : \/ SetVisible(c) \/ RemoveCounted(c) \/ BeginCompaction(c) \/ CompactionStarts(c) \/ SplitStart(c) \/ Split(c)
                                                                \/ \E k \in Keys : Remove(c, k) \/ \E v \in Vals : Set(c, k, v)
                                           \/ \E sp \in Spans : Compact(sp)
                                           \/ MergeStart \/ Merge \/ ClearStart \/ ClearRemove \/ ClearCreate)
NotStuck == ~Stuck

\* every crash between counting an entry and storing it leaves the count one too high; more than once adds nothing
Bounded == \A i \in 1..MaxId : ino[i].cnt <= Cardinality(Live(ino[i])) + 1

\* --- small instances
KeySel1(k) == CASE k = "a" -> 0 [] k = "b" -> 1 [] k = "c" -> 0 [] k = "d" -> 3 [] k = "e" -> 2 [] k = "f" -> 1
KeyRow1(k) == CASE k = "a" -> 0 [] k = "b" -> 0 [] k = "c" -> 1 [] k = "d" -> 0 [] k = "e" -> 1 [] k = "f" -> 0
=============================================================================
