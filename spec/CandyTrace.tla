----------------------------- MODULE CandyTrace -----------------------------
(***************************************************************************)
(* Is a recorded history of the real store a behaviour of the              *)
(* specification?                                                          *)
(*                                                                         *)
(* Every line of the input file is one history: the calls made, their      *)
(* results, and what was found after process deaths, power losses and      *)
(* reopenings that were injected at recorded moments.  Each history is     *)
(* one initial state; a history is accepted iff some behaviour of this     *)
(* machine consumes all its events.                                        *)
(*                                                                         *)
(* The machine holds the abstract store s of CandyOps and the pending      *)
(* calls.  A pending call takes effect in a silent step Lin between its    *)
(* call and its return, so a history is accepted iff it is linearizable.   *)
(* A crash event asks whether what the next open showed is one of the      *)
(* states the specification allows at that moment (crash events do not     *)
(* change s: the real process lived on, the crash happened to a copy).     *)
(***************************************************************************)
EXTENDS CandyOps, Json, IOUtils

VARIABLES tid,   \* which history
          l,     \* next event
          s,     \* abstract store
          c,     \* configuration of the open store
          pend,  \* thread |-> [e: call event, done: has taken effect, part: partly]
          its,   \* running iterations: id |-> [must, may, got]
          win,   \* running flushes: thread |-> [must, may, keys]
          acc,   \* counters since open or clear, for C20
          misc   \* [gone: faults are over, prev: last stats event, mg: a merge was called, lg: something
                 \*  large was written, pc: a clear failed half way,
                 \*  dr: compactions and splits when the lists of the last ones were last read, if known]
vars == <<tid, l, s, c, pend, its, win, acc, misc>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Dbg == "DBG" \in DOMAIN IOEnv

T == Traces[tid]
Ev == T.ev[l]
HasF(r, f) == f \in DOMAIN r
Live == HasF(T.cfg, "live") /\ T.cfg.live

-----------------------------------------------------------------------------
(* What the whole contents look like through the API *)
SeqSet(q) == {q[i] : i \in 1..Len(q)}

RECURSIVE FindName(_, _, _)
FindName(q, n, i) == IF i > Len(q) THEN 0 ELSE IF q[i].n = n THEN i ELSE FindName(q, n, i + 1)

KVMatch(st, d) ==
  /\ ExactListing(d.kv, PlainPairs(st))
  /\ \A i \in 1..Len(d.g) : d.g[i][2] = (IF d.g[i][1] \in DOMAIN st.kv THEN Some(st.kv[d.g[i][1]]) ELSE None)
  /\ \A i \in 1..Len(d.tk) : d.tk[i][2] = (IF d.tk[i][1] \in DOMAIN st.kv THEN Some(st.kv[d.tk[i][1]]) ELSE None)

ListMatch(st, x, loose) ==
  LET L == IF x.n \in DOMAIN st.ls THEN st.ls[x.n] ELSE EmptyList
      it == Items(L)
  IN /\ x.f = <<"seq", it>>
     /\ x.b = <<"seq", Reverse(it)>>
     /\ \A i \in 1..Len(x.g) :
          LET p == PosOf(L, x.g[i][1])
          IN x.g[i][2] = (IF p # -1000000 THEN Some(L.m[p][2]) ELSE None)
     /\ x.len[1] = "n"
     /\ x.len[2] \in Len(it) .. Len(it) + L.d + (IF loose THEN 1 ELSE 0)

QueueMatch(st, x) ==
  LET Q == IF x.n \in DOMAIN st.qs THEN st.qs[x.n] ELSE EmptyQueue
  IN /\ x.f = <<"seq", QSeq(Q)>>
     /\ x.b = <<"seq", Reverse(QSeq(Q))>>
     /\ x.len = <<"n", Q.n>>
     /\ x.rng = <<"rng", Q.h, Q.t>>
\* the same, when a call on it was interrupted: bookkeeping may be off by one, contents not
QueueLoose(st, x) ==
  LET Q == IF x.n \in DOMAIN st.qs THEN st.qs[x.n] ELSE EmptyQueue
      qq == QSeq(Q)
  IN /\ x.f = <<"seq", qq>>
     /\ x.b = <<"seq", Reverse(qq)>>
     /\ x.rng[2] <= x.rng[3]
     /\ Len(qq) > 0 => x.rng[2] <= qq[1][1] /\ qq[Len(qq)][1] < x.rng[3]
     \* interrupted removals leave the number of items too high for good
     /\ x.len[2] \in Len(qq) .. (x.rng[3] - x.rng[2]) + Q.n

BigMatch(st, x) ==
  IF x.n \notin DOMAIN st.big THEN x.w = None /\ x.c = <<>>
  ELSE LET B == st.big[x.n] IN
       /\ x.w[1] = (IF B.v = "!" THEN "none" ELSE "some")
       /\ B.v \notin {"?", "!"} => x.w[2] = B.v
       /\ x.c # <<>> => x.c = B.c

StatMatch(d) == HasF(d, "st") => d.st[1] >= d.st[2]

\* looseL, looseQ: lists and queues on which a call was interrupted; havoc: not looked at
DumpMatch(st, d, looseL, looseQ, havoc) ==
  /\ ~HasF(d, "fail")
  /\ StatMatch(d)
  /\ KVMatch(st, d)
  /\ \A i \in 1..Len(d.ls) : d.ls[i].n \in havoc \/ ListMatch(st, d.ls[i], d.ls[i].n \in looseL)
  /\ \A i \in 1..Len(d.qs) : IF d.qs[i].n \in looseQ THEN QueueLoose(st, d.qs[i]) ELSE QueueMatch(st, d.qs[i])
  /\ \A i \in 1..Len(d.big) : BigMatch(st, d.big[i])

\* an interrupted clear: everything shown was there before, the rest is gone
DumpSub(st, d) ==
  /\ ~HasF(d, "fail")
  /\ StatMatch(d)
  /\ \A i, j \in 1..Len(d.kv) : i # j => d.kv[i][1] # d.kv[j][1]
  /\ SeqSet(d.kv) \subseteq PlainPairs(st)
  /\ \A i \in 1..Len(d.g) : LET k == d.g[i][1] IN
        \/ d.g[i][2] = None /\ \A j \in 1..Len(d.kv) : d.kv[j][1] # k
        \/ k \in DOMAIN st.kv /\ d.g[i][2] = Some(st.kv[k]) /\ <<k, st.kv[k]>> \in SeqSet(d.kv)
  /\ \A i \in 1..Len(d.tk) : LET k == d.tk[i][1] IN
        \/ d.tk[i][2] = None
        \/ k \in DOMAIN st.kv /\ d.tk[i][2] = Some(st.kv[k])
  /\ \A i \in 1..Len(d.ls) : LET x == d.ls[i] IN
        SeqSet(x.f[2]) \subseteq (IF x.n \in DOMAIN st.ls THEN SeqSet(Items(st.ls[x.n])) ELSE {})
  /\ \A i \in 1..Len(d.qs) : LET x == d.qs[i] IN
        SeqSet(x.f[2]) \subseteq (IF x.n \in DOMAIN st.qs THEN SeqSet(QSeq(st.qs[x.n])) ELSE {})
  /\ \A i \in 1..Len(d.big) : LET x == d.big[i] IN
        x.w # None => x.n \in DOMAIN st.big

-----------------------------------------------------------------------------
(* Starting from what a crash left: positions inside lists are unknown; an *)
(* interrupted call may have left an empty queue or big value that only    *)
(* shows in the results of later calls (gq, gb: those that are there)      *)
GhostQ(d) == {d.qs[i].n : i \in {j \in 1..Len(d.qs) : d.qs[j].rng[2] = d.qs[j].rng[3]}}
GhostB(d) == {d.big[i].n : i \in {j \in 1..Len(d.big) : d.big[j].w = None}}
Adopt(d, gq, gb) ==
  LET kvp == SeqSet(d.kv) \cup {<<d.tk[i][1], d.tk[i][2][2]>> : i \in {j \in 1..Len(d.tk) : d.tk[j][2] # None}}
      one(k) == CHOOSE p \in kvp : p[1] = k
      li(x) == LET it == x.f[2] IN
               [h |-> 0, t |-> Len(it), n |-> Len(it), m |-> [i \in 0..Len(it) - 1 |-> it[i + 1]],
                fz |-> TRUE, d |-> IF x.len[2] > Len(it) THEN x.len[2] - Len(it) ELSE 0]
      qu(x) == LET it == x.f[2] IN
               [h |-> x.rng[2], t |-> x.rng[3], n |-> x.len[2],
                m |-> [i \in {it[j][1] : j \in 1..Len(it)} |-> it[CHOOSE j \in 1..Len(it) : it[j][1] = i][2]]]
      bi(x) == IF x.w = None THEN [v |-> "!", c |-> <<>>] ELSE [v |-> x.w[2], c |-> x.c]
      lsn == {d.ls[i].n : i \in 1..Len(d.ls)}
      qsn == {d.qs[i].n : i \in {j \in 1..Len(d.qs) : d.qs[j].rng[2] # d.qs[j].rng[3]}} \cup gq
      bsn == {d.big[i].n : i \in {j \in 1..Len(d.big) : d.big[j].w # None}} \cup gb
  IN [kv |-> [k \in {p[1] : p \in kvp} |-> one(k)[2]],
      ls |-> [n \in lsn |-> li(d.ls[FindName(d.ls, n, 1)])],
      qs |-> [n \in qsn |-> qu(d.qs[FindName(d.qs, n, 1)])],
      big |-> [n \in bsn |-> bi(d.big[FindName(d.big, n, 1)])]]

\* ok: inserts, updates and removals are known; okm: what has been written since the last open is known;
\* okr: so are hits and misses
ZeroAcc == [ok |-> TRUE, okm |-> TRUE, okr |-> TRUE, ins |-> 0, upd |-> 0, rem |-> 0, posl |-> 0, posh |-> 0, negl |-> 0, negh |-> 0,
            hist |-> <<0, 0, 0, 0, 0>>, wb |-> 0]

Unknown(a) == [a EXCEPT !.ok = FALSE, !.okm = FALSE, !.okr = FALSE]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ IF HasF(T, "init")
     THEN \E gq \in SUBSET GhostQ(T.init), gb \in SUBSET GhostB(T.init) : s = Adopt(T.init, gq, gb)
     ELSE s = InitState
  /\ c = [maxshard |-> T.cfg.maxshard, thr |-> T.cfg.thr, pre |-> T.cfg.pre]
  /\ pend = EmptyFn /\ its = EmptyFn /\ win = EmptyFn
  /\ acc = IF HasF(T, "init") THEN Unknown(ZeroAcc) ELSE ZeroAcc
  /\ misc = [gone |-> FALSE, mg |-> FALSE, prev |-> <<>>, lg |-> FALSE, pc |-> FALSE, dr |-> IF HasF(T, "init") THEN <<>> ELSE <<0, 0>>]

-----------------------------------------------------------------------------
(* Windows: what was present throughout / at some time since a moment *)
Pairs(st) == {<<k, st.kv[k]>> : k \in DOMAIN st.kv}
NewWin(st) == [must |-> Pairs(st), may |-> Pairs(st), keys |-> DOMAIN st.kv, got |-> <<>>]
Widen(W, st) == [W EXCEPT !.must = @ \cap Pairs(st), !.may = @ \cup Pairs(st), !.keys = @ \cap DOMAIN st.kv]
WidenAll(F, st) == IF F = EmptyFn THEN F ELSE [i \in DOMAIN F |-> Widen(F[i], st)]

\* an image of the plain entries against a window
ImageOk(W, d) ==
  LET img == SeqSet(d.kv) \cup {<<d.tk[i][1], d.tk[i][2][2]>> : i \in {j \in 1..Len(d.tk) : d.tk[j][2] # None}}
      keys == {p[1] : p \in img}
  IN /\ W.must \subseteq img
     /\ img \subseteq W.may
     /\ W.keys \subseteq keys
     /\ \A i, j \in 1..Len(d.kv) : i # j => d.kv[i][1] # d.kv[j][1]

-----------------------------------------------------------------------------
(* Counters (C20): hits and misses counted by calls other than get and     *)
(* contains are a matter of definition, hence the ranges.                  *)
CountOp(a, st, e) ==
  IF e.o \notin KVOpNames \/ e.o \in {"fill", "unfill"} THEN
    (IF e.o = "clear" THEN (IF e.r = <<"ok">> THEN ZeroAcc ELSE Unknown(a))
     ELSE IF e.o \in {"iter", "iterc", "flush", "nop", "open2"} THEN a
     \* counters that are not kept in the files start again
     ELSE IF e.o = "reopen" THEN (IF l = 1 /\ ~HasF(T, "init") THEN a ELSE [ZeroAcc EXCEPT !.ok = FALSE])
     ELSE Unknown(a))
  ELSE IF e.r[1] = "err" THEN a
  ELSE
  LET has == e.k \in DOMAIN st.kv
      old == IF has THEN st.kv[e.k] ELSE ""
      rd == e.o \in {"get", "tget", "has", "thas"}
      cr == ~has /\ e.o \in {"set", "tset", "goc", "tgoc"}
      repl == e.o \in {"rep", "trep"} /\ has /\ (Len(e.x) = 0 \/ e.x[1] = old)
      up == ((has /\ e.o \in {"set", "tset"}) \/ repl) /\ e.v # old
      rm == has /\ e.o \in {"rem", "trem"}
      b(x) == IF x THEN 1 ELSE 0
      wr == cr \/ up
      bucket == IF e.sz < 128 THEN 1 ELSE IF e.sz < 1024 THEN 2 ELSE IF e.sz < 8192 THEN 3 ELSE IF e.sz < 32768 THEN 4 ELSE 5
  IN [a EXCEPT !.hist = IF wr THEN [@ EXCEPT ![bucket] = @ + 1] ELSE @, !.wb = IF wr THEN @ + e.sz ELSE @, !.ins = @ + b(cr), !.upd = @ + b(up), !.rem = @ + b(rm),
               !.posl = @ + b(rd /\ has), !.posh = @ + b(has),
               !.negl = @ + b(rd /\ ~has), !.negh = @ + b(~has)]

\* every record is accounted for: an item of a list takes two, a list, a queue and a big value one themselves
Sum(f, D) == MapThenSumSet(LAMBDA x : f[x], D)
Records(st) ==
  Cardinality(DOMAIN st.kv)
  + Sum([n \in DOMAIN st.ls |-> 1 + 2 * Cardinality(DOMAIN st.ls[n].m)], DOMAIN st.ls)
  + Sum([n \in DOMAIN st.qs |-> 1 + Cardinality(DOMAIN st.qs[n].m)], DOMAIN st.qs)
  + Sum([n \in DOMAIN st.big |-> 1 + Len(st.big[n].c)], DOMAIN st.big)

\* C18: what a merge may and must do.  A shard is meant for 29491 entries; a row holds 512.
Needed(n) == CHOOSE k \in {1, 2, 4, 8, 16, 32, 64} : k * 29491 >= n /\ (k = 1 \/ (k \div 2) * 29491 < n)
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
CountIn(sh, a, b) == FoldLeft(LAMBDA n, x : IF x[1] >= a /\ x[2] <= b THEN n + x[3] ELSE n, 0, sh)
MergeOk(p, m, e) ==
  LET want == Needed(Max2(p.entries, c.pre))
      old == SeqSet(p.sh)
      mid(x) == (x[1] + x[2]) \div 2
  IN /\ e.shards <= p.shards
     /\ m.r = <<IF e.shards # p.shards THEN "true" ELSE "false">>
     /\ e.shards = p.shards => {<<x[1], x[2]>> : x \in SeqSet(e.sh)} = {<<x[1], x[2]>> : x \in old}
     /\ e.shards >= Min2(want, p.shards)
     \* only what is filled no more than asked for is merged
     /\ \A x \in SeqSet(e.sh) :
          \/ \E y \in old : y[1] = x[1] /\ y[2] = x[2]
          \/ (CountIn(p.sh, x[1], mid(x)) <= m.m /\ CountIn(p.sh, mid(x), x[2]) <= m.m)
     \* and it goes on as long as there is something to merge
     /\ e.shards > want => \A i \in 1..Len(e.pairs) : e.pairs[i][1] >= m.m \/ e.pairs[i][2] >= m.m \/ e.pairs[i][3] > 512

\* C19: counters start again from zero
ClearedStats(e) ==
  /\ e.ins = 0 /\ e.upd = 0 /\ e.rem = 0 /\ e.pos = 0 /\ e.neg = 0 /\ e.occ = 0 /\ e.waste = 0
  /\ e.comps = 0 /\ e.splits = 0 /\ e.lc = 0 /\ e.ls = 0
  /\ e.hist = <<0, 0, 0, 0, 0>> /\ e.wops = 0 /\ e.wbytes = 0 /\ e.oth = <<0, 0, 0>>

\* (asked for as TRUE = ..., or TLC would take every way to satisfy it for a step of its own)
StatsOk(e) ==
  \* derived numbers
  /\ e.entries = e.ins - e.rem
  /\ e.data = e.occ - e.waste
  /\ e.avg = (IF e.entries = 0 THEN 0 ELSE e.data \div e.entries)
  /\ e.req = Needed(e.entries)
  /\ e.sms = (e.shards > 2 * e.req)
  /\ e.tot >= e.occ /\ ((e.tot - e.occ) % Max2(e.shards, 1)) = 0
  \* the last compactions and splits since they were asked for last: at most eight of each
  /\ IF misc.dr # <<>> /\ ~T.cfg.fault
     THEN e.lc = Min2(8, e.comps - misc.dr[1]) /\ e.ls = Min2(8, e.splits - misc.dr[2])
     ELSE e.lc <= Min2(8, e.comps) /\ e.ls <= Min2(8, e.splits)
  /\ ~T.cfg.fault /\ l > 1 /\ T.ev[l - 1].e = "op" =>
       LET m == T.ev[l - 1] IN
       /\ m.o = "clear" /\ m.r = <<"ok">> => ClearedStats(e)
       /\ m.o = "merge" /\ m.r[1] # "err" /\ l > 2 /\ T.ev[l - 2].e = "stats" => MergeOk(T.ev[l - 2], m, e)
  /\ e.entries = e.raw
  /\ T.cfg.fault \/ e.data = e.rawb
  /\ IF T.cfg.fault THEN e.shards <= e.files ELSE e.shards = e.files
  /\ T.cfg.fault \/ e.stray = <<>>
  /\ ~T.cfg.fault /\ (IF HasF(T, "init") THEN DOMAIN s.ls = {} /\ DOMAIN s.qs = {} /\ DOMAIN s.big = {}
                      ELSE \A n \in DOMAIN s.ls : ~s.ls[n].fz)
     => e.entries = Records(s)
  /\ ~T.cfg.fault /\ e.comps = 0 /\ e.splits = 0 =>
       /\ acc.ok => e.ins = acc.ins /\ e.rem = acc.rem
       /\ acc.okm => /\ e.upd = acc.upd
                     /\ e.hist = acc.hist /\ e.wbytes = acc.wb
                     /\ e.wops = e.hist[1] + e.hist[2] + e.hist[3] + e.hist[4] + e.hist[5]
       /\ acc.okr => /\ e.oth[2] >= acc.posl /\ e.pos \in acc.posl .. acc.posh /\ e.neg \in acc.negl .. acc.negh
  \* C25: garbage beyond the threshold is gone once an insert has seen it
  /\ misc.prev # <<>> => LET p == misc.prev[1] IN
        p.shards = 1 /\ e.shards = 1 /\ p.waste >= c.thr /\ misc.prev[2] => e.waste = 0
  /\ ~T.cfg.fault /\ ~misc.mg /\ ~misc.lg => e.maxfile <= c.maxshard + c.thr + 400

-----------------------------------------------------------------------------
(* Which lists are in the middle of a multi-step call by another thread: calls that
   take the list's lock have to wait, reads by key do not. *)
Blocked(e, t) ==
  e.o \in ListOpNames \ {"lget", "lhas"} /\
  \E u \in DOMAIN pend : u # t /\ pend[u].part /\ pend[u].e.o = "ldisc" /\ pend[u].e.l = e.l

Failed(e) == e.r[1] = "err" /\ e.r[2] \in {"io", "other", "open"}

\* effect of a completed call: states it may lead to
Effect(e) ==
  IF Live THEN (IF e.r[1] # "panic" THEN {s} ELSE {})
  ELSE IF Failed(e) THEN
    (IF T.cfg.fault /\ ~misc.gone THEN FailedStates(s, e) ELSE {})
  ELSE {x.s : x \in {y \in ApplyC(c, s, e) : Match(y.r, e.r)}}

\* iteration calls work on windows, not on the state
IterOp(e) == e.o \in {"itb", "itn"}
IterEffect(e) ==
  IF e.o = "itb" THEN {Put(its, e.id, NewWin(s))}
  ELSE LET W == its[e.id]
       IN IF e.r = <<"end">>
          THEN (IF \A p \in W.must : SubSeq(p[1], 1, 2) = "p:" => p \in SeqSet(W.got) THEN {its} ELSE {})
          ELSE IF e.r[1] = "item" /\ e.r[2][1] \in W.may
               THEN {[its EXCEPT ![e.id] = [@ EXCEPT !.got = Append(@, e.r[2][1])]]}
               ELSE {}

NewCfg(e) == IF e.o = "reopen" /\ HasF(e, "maxshard") THEN [maxshard |-> e.maxshard, thr |-> e.thr, pre |-> e.pre] ELSE c

\* state change with everything that watches it
Become(s1) ==
  /\ s' = s1
  /\ IF s1.kv = s.kv THEN UNCHANGED <<its, win>>
     ELSE its' = WidenAll(its, s1) /\ win' = WidenAll(win, s1)

\* more than the slack a shard is given
Large(e) == HasF(e, "lg")
Inserts(e) == e.o \in {"set", "tset", "goc", "tgoc", "rep", "trep"}

\* a call with nothing in between
DoOp ==
  /\ Ev.e = "op"
  /\ l' = l + 1
  /\ c' = NewCfg(Ev)
  /\ IF ~Live /\ IterOp(Ev) THEN
       /\ its' \in IterEffect(Ev)
       /\ UNCHANGED <<s, win, acc, misc>>
     ELSE
       /\ \E s1 \in Effect(Ev) : Become(s1)
       /\ acc' = IF Live THEN acc ELSE CountOp(acc, s, Ev)
       /\ misc' = IF Ev.o = "merge" THEN [misc EXCEPT !.mg = TRUE, !.prev = <<>>]
                  ELSE IF Ev.o = "clear" THEN [misc EXCEPT !.pc = Failed(Ev), !.prev = <<>>, !.dr = IF Failed(Ev) THEN <<>> ELSE <<0, 0>>]
                  ELSE IF Ev.o = "reopen" THEN [misc EXCEPT !.prev = <<>>, !.dr = IF Failed(Ev) THEN <<>> ELSE <<0, 0>>, !.lg = @ \/ Large(Ev)]
                  ELSE IF misc.prev = <<>> /\ ~Large(Ev) THEN misc
                  ELSE IF misc.prev = <<>> THEN [misc EXCEPT !.lg = TRUE]
                  ELSE [misc EXCEPT !.lg = @ \/ Large(Ev), !.prev = IF Inserts(Ev) \/ Ev.o \in {"get", "has"}
                                             THEN (IF @[2] /\ Inserts(Ev) THEN <<>> ELSE <<@[1], @[2] \/ Inserts(Ev)>>) ELSE <<>>]
  /\ UNCHANGED <<tid, pend>>

DoCall ==
  /\ Ev.e = "call"
  /\ l' = l + 1
  /\ pend' = Put(pend, Ev.t, [e |-> Ev, done |-> FALSE, part |-> FALSE])
  /\ win' = IF Ev.o = "flush" THEN Put(win, Ev.t, NewWin(s)) ELSE win
  /\ misc' = [misc EXCEPT !.prev = <<>>, !.dr = IF Ev.o \in {"clear", "reopen"} THEN <<>> ELSE @, !.mg = @ \/ Ev.o = "merge", !.lg = @ \/ Large(Ev)]
  /\ UNCHANGED <<tid, s, c, its, acc>>

DoRet ==
  /\ Ev.e = "ret"
  /\ Ev.t \in DOMAIN pend
  /\ pend[Ev.t].done
  /\ l' = l + 1
  /\ pend' = Del(pend, Ev.t)
  /\ UNCHANGED <<tid, s, c, its, win, acc, misc>>

\* a pending call takes effect
Lin ==
  /\ Ev.e # "call"
  /\ \E t \in DOMAIN pend :
       LET e == pend[t].e IN
       /\ ~pend[t].done
       /\ HasF(e, "r")
       /\ ~Blocked(e, t)
       /\ pend' = [pend EXCEPT ![t] = [@ EXCEPT !.done = TRUE, !.part = FALSE]]
       /\ c' = NewCfg(e)
       /\ IF ~Live /\ IterOp(e)
          THEN its' \in IterEffect(e) /\ UNCHANGED <<s, win, acc>>
          ELSE /\ IF e.o = "ldisc" /\ pend[t].part
                  THEN e.r = <<"true">> /\ Become([s EXCEPT !.ls = Del(@, e.l)])
                  ELSE \E s1 \in Effect(IF e.o = "lprom" /\ pend[t].part THEN [e EXCEPT !.o = "lset"] ELSE e) :
                         Become(s1)
               /\ acc' = IF Live THEN acc ELSE CountOp(acc, s, e)
  /\ UNCHANGED <<tid, l, misc>>

\* calls whose steps may be seen one by one by reads that do not take the list's lock:
\* a promotion removes, then inserts; a discard removes one item after the other
LinPart ==
  /\ Ev.e # "call"
  /\ ~Live
  /\ \E t \in DOMAIN pend :
       LET e == pend[t].e IN
       /\ ~pend[t].done
       /\ HasF(e, "r")
       /\ e.o \in {"lprom", "ldisc"}
       /\ ~T.cfg.exact
       /\ e.o = "ldisc" => e.l \in DOMAIN s.ls
       /\ ~Blocked(e, t)
       /\ LET L == IF e.l \in DOMAIN s.ls THEN s.ls[e.l] ELSE EmptyList IN
          IF e.o = "lprom"
          THEN /\ ~pend[t].part
               /\ s' = IF PosOf(L, e.k) = -1000000 THEN s ELSE SetList(s, e.l, ListRemoveAt(L, PosOf(L, e.k)))
          ELSE /\ \E p \in DOMAIN L.m :
                    s' = [s EXCEPT !.ls[e.l] = [L EXCEPT !.m = Del(@, p), !.fz = TRUE]]
       /\ pend' = [pend EXCEPT ![t] = [@ EXCEPT !.part = TRUE]]
  /\ UNCHANGED <<tid, l, c, its, win, acc, misc>>

-----------------------------------------------------------------------------
(* States a process death may leave: each pending call not at all, done, or half done *)
RECURSIVE CrashStates(_, _)
CrashStates(st, P) ==
  {st} \cup UNION {UNION {CrashStates(s1, P \ {t}) : s1 \in CrashInside(st, pend[t].e)} : t \in P}

DoCrash ==
  /\ Ev.e = "crash"
  /\ l' = l + 1
  /\ LET open == {t \in DOMAIN pend : ~pend[t].done /\ pend[t].e.o # "clear"}
         clr == \E t \in DOMAIN pend : pend[t].e.o = "clear"
         lo == UNION {ListOf(pend[t].e) : t \in DOMAIN pend}
         qo == UNION {QueueOf(pend[t].e) : t \in DOMAIN pend}
         hv == {pend[t].e.l : t \in {u \in DOMAIN pend : pend[u].e.o = "lcomp"}}
         S == CrashStates(s, open)
     IN TRUE = IF Live THEN ~HasF(Ev.d, "fail")
               ELSE \/ \E st \in S : DumpMatch(st, Ev.d, lo, qo, hv)
                    \/ clr /\ \E st \in S : DumpSub(st, Ev.d)
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc, misc>>

DoDump ==
  /\ Ev.e = "dump"
  /\ l' = l + 1
  /\ TRUE = IF Live THEN ~HasF(Ev.d, "fail")
            \* of a clear that failed half way: some may be gone
            ELSE IF misc.pc THEN DumpSub(s, Ev.d)
            ELSE DumpMatch(s, Ev.d, {}, {}, {})
  /\ acc' = [acc EXCEPT !.okr = FALSE]      \* the dump's own reads count, too
  /\ misc' = [misc EXCEPT !.dr = <<>>]
  /\ UNCHANGED <<tid, s, c, pend, its, win>>

\* a power loss right after flush returned: one of the directory
\* states since the call began shows what it must
DoPl ==
  /\ Ev.e = "pl"
  /\ l' = l + 1
  /\ LET W == IF Ev.t \in DOMAIN win THEN win[Ev.t] ELSE NewWin(s)
     IN TRUE = (\E i \in 1..Len(Ev.d) : ~HasF(Ev.d[i], "fail") /\ ImageOk(W, Ev.d[i]))
  /\ win' = Del(win, Ev.t)
  /\ UNCHANGED <<tid, s, c, pend, its, acc, misc>>
\* the same after a call on a key nobody else writes, with flush aggregation
DoPlk ==
  /\ Ev.e = "plk"
  /\ l' = l + 1
  /\ TRUE = (\E i \in 1..Len(Ev.d) :
        /\ ~HasF(Ev.d[i], "fail")
        /\ LET g == Ev.d[i].g \o Ev.d[i].tk
           IN \A j \in 1..Len(g) : g[j][1] = Ev.k =>
                g[j][2] = (IF Ev.k \in DOMAIN s.kv THEN Some(s.kv[Ev.k]) ELSE None))
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc, misc>>

DoStats ==
  /\ Ev.e = "stats"
  /\ l' = l + 1
  /\ TRUE = (Live \/ StatsOk(Ev))
  /\ misc' = [misc EXCEPT !.prev = <<Ev, FALSE>>, !.dr = <<Ev.comps, Ev.splits>>]
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc>>

\* a second open while the store is open
DoOwn ==
  /\ Ev.e = "own" /\ Ev.refused /\ Ev.same
  /\ l' = l + 1
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc>>
  /\ misc' = [misc EXCEPT !.dr = <<>>]

DoNoFault ==
  /\ Ev.e = "nofault"
  /\ l' = l + 1
  /\ misc' = [misc EXCEPT !.gone = TRUE]
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc>>

\* once nothing fails any longer, garbage is reclaimed again
DoRoom ==
  /\ Ev.e = "room"
  /\ Ev.left = 0 /\ Ev.end <= c.maxshard + c.thr + 400
  /\ l' = l + 1
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc, misc>>

\* an unsupported shard file: refused and untouched ...
DoRefuse ==
  /\ Ev.e = "refuse" /\ Ev.refused /\ Ev.same
  /\ l' = l + 1
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc>>
  /\ misc' = [misc EXCEPT !.dr = <<>>]
\* files that are none of the store's business, leftovers of restructurings
DoForeign ==
  /\ Ev.e = "foreign" /\ Ev.opened /\ Ev.same
  /\ l' = l + 1
  /\ acc' = Unknown(acc)
  /\ UNCHANGED <<tid, s, c, pend, its, win>>
  /\ misc' = [misc EXCEPT !.dr = <<>>]
\* ... or, on request, emptied: its keys are gone, all others stay
DoWiped ==
  /\ Ev.e = "wiped" /\ Ev.opened
  /\ l' = l + 1
  /\ Become([s EXCEPT !.kv = [k \in DOMAIN @ \ SeqSet(Ev.keys) |-> @[k]]])
  /\ acc' = Unknown(acc)
  /\ UNCHANGED <<tid, c, pend>>
  /\ misc' = [misc EXCEPT !.dr = <<>>]

Accept ==
  /\ l = Len(T.ev) + 1
  /\ PrintT("ACC " \o ToString(tid))
  /\ l' = l + 1
  /\ UNCHANGED <<tid, s, c, pend, its, win, acc, misc>>

Step ==
  \/ DoOp \/ DoCall \/ DoRet \/ Lin \/ LinPart \/ DoCrash \/ DoDump \/ DoPl \/ DoPlk
  \/ DoStats \/ DoOwn \/ DoNoFault \/ DoRoom \/ DoForeign \/ DoRefuse \/ DoWiped

Next == (l <= Len(T.ev) /\ Step) \/ Accept
Spec == Init /\ [][Next]_vars

\* only to find out where a history stops being explicable
Debug == Dbg => PrintT("AT " \o ToString(tid) \o " " \o ToString(l))
DebugState == Dbg => PrintT(<<"ST", l, s, pend>>)
=============================================================================
