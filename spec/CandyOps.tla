------------------------------ MODULE CandyOps ------------------------------
(***************************************************************************)
(* The sequential meaning of every public candystore call.                 *)
(*                                                                         *)
(*   Apply(s, e)  is the set of [s |-> state after, r |-> result] pairs    *)
(*                that call e may produce in state s.                      *)
(*   Crash(s, e)  is the set of states that may be found on disk if the    *)
(*                process dies (or the OS refuses a write) inside e.       *)
(*                                                                         *)
(* A state s has these parts:                                              *)
(*   kv   : plain and typed entries, key |-> value                         *)
(*   ls   : lists,  name |-> list record (see EmptyList)                   *)
(*   qs   : queues, name |-> queue record                                  *)
(*   big  : big values, key |-> sequence of chunks                         *)
(* Keys of plain entries start with "p:", typed entries with "t<id>:".     *)
(*                                                                         *)
(* A list is kept at the positions the design gives it: items live at      *)
(* consecutive integer positions h..t-1, removals leave holes, so that the *)
(* (documented) decision of when to compact is part of the specification.  *)
(* After a crash positions are not observable; fz = TRUE marks a list      *)
(* whose positions are unknown, d bounds how far list_len ("estimated      *)
(* length") may over-count.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

LOCAL Has(f, k) == k \in DOMAIN f
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFn == <<>>

One(s, r) == {[s |-> s, r |-> r]}
None == <<"none">>
Some(v) == <<"some", v>>
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>

InitState == [kv |-> EmptyFn, ls |-> EmptyFn, qs |-> EmptyFn, big |-> EmptyFn]

-----------------------------------------------------------------------------
(* Sizes.  Only events that carry a field z = <<key length, value length>> *)
(* are near a limit.  c is the configuration of the open store.            *)
MaxKey == 16383 - 255
MaxVal == 65535 - 255
MaxTotalKey == 16383
MaxTotalVal == 65535

\* extra key / value bytes each kind of entry needs
KeyExtra(o) == CASE o \in {"lset","lprom","lrep","lgoc"} -> 9
                 [] o \in {"qpushH","qpushT","qext","bset"} -> 9
                 [] OTHER -> 1
ValExtra(o) == IF o \in {"lset","lprom","lrep","lgoc"} THEN 8 ELSE 0

Plain(o) == o \in {"set","rep","goc"}

Removal(o) == o \in {"rem", "trem", "lrem"}

\* the errors the limits call for ({} = must be accepted)
MustRefuse(c, e) ==
  IF "z" \notin DOMAIN e THEN {} ELSE
  LET kl == e.z[1]  vl == e.z[2] 
      tk == kl + KeyExtra(e.o)  tv == vl + ValExtra(e.o)
  IN IF Plain(e.o)
     THEN (IF kl > MaxKey THEN {"key"} ELSE {}) \cup (IF vl > MaxVal THEN {"val"} ELSE {})
          \cup (IF tk + tv > c.maxshard THEN {"fit"} ELSE {})
     ELSE (IF tk > MaxTotalKey THEN {"key"} ELSE {}) \cup (IF tv > MaxTotalVal THEN {"val"} ELSE {})
          \cup (IF tk + tv > c.maxshard /\ ~Removal(e.o) THEN {"fit"} ELSE {})
\* errors that are tolerated between the documented limit and the hard one
MayRefuse(c, e) ==
  IF "z" \notin DOMAIN e \/ Plain(e.o) THEN {} ELSE
    (IF e.z[1] > MaxKey THEN {"key"} ELSE {}) \cup (IF e.z[2] > MaxVal THEN {"val"} ELSE {})

-----------------------------------------------------------------------------
(* Plain and typed entries *)
KV(s, e) ==
  LET has == Has(s.kv, e.k)  old == IF has THEN s.kv[e.k] ELSE ""
      put(v) == [s EXCEPT !.kv = Put(@, e.k, v)]
      del == [s EXCEPT !.kv = Del(@, e.k)]
  IN CASE e.o = "set" -> One(put(e.v), IF has THEN <<"prev", old>> ELSE <<"new">>)
       [] e.o \in {"get", "tget"} -> One(s, IF has THEN Some(old) ELSE None)
       [] e.o \in {"has", "thas"} -> One(s, Bool(has))
       [] e.o \in {"rem", "trem"} -> One(del, IF has THEN Some(old) ELSE None)
       [] e.o = "rep" ->
            IF ~has THEN One(s, None)
            ELSE IF Len(e.x) = 1 /\ e.x[1] # old THEN One(s, <<"wrong", old>>)
            ELSE One(put(e.v), <<"prev", old>>)
       [] e.o = "goc" -> IF has THEN One(s, <<"old", old>>) ELSE One(put(e.v), <<"new", e.v>>)
       \* typed wrappers: same map, their own result shapes
       [] e.o = "tset" -> One(put(e.v), IF has THEN Some(old) ELSE None)
       [] e.o = "trep" ->
            IF ~has \/ (Len(e.x) = 1 /\ e.x[1] # old) THEN One(s, None)
            ELSE One(put(e.v), Some(old))
       [] e.o = "tgoc" -> IF has THEN One(s, Some(old)) ELSE One(put(e.v), Some(e.v))
       \* many creations of distinct fresh keys in one event (bulk loads)
       [] e.o = "fill" ->
            LET ks == {e.kvs[i][1] : i \in 1..Len(e.kvs)}
                f == [k \in ks |-> (CHOOSE i \in 1..Len(e.kvs) : e.kvs[i][1] = k)]
            IN One([s EXCEPT !.kv = [k \in ks |-> e.kvs[f[k]][2]] @@ @],
                   <<"created", Cardinality(ks \ DOMAIN s.kv)>>)
       [] e.o = "unfill" ->
            LET ks == {e.ks[i] : i \in 1..Len(e.ks)}
            IN One([s EXCEPT !.kv = [k \in DOMAIN @ \ ks |-> @[k]]],
                   <<"removed", Cardinality(ks \cap DOMAIN s.kv)>>)

-----------------------------------------------------------------------------
(* Lists *)
EmptyList == [h |-> 0, t |-> 0, n |-> 0, m |-> EmptyFn, fz |-> FALSE, d |-> 0]

Positions(L) == SetToSortSeq(DOMAIN L.m, <)
Items(L) == LET p == Positions(L) IN [i \in 1..Len(p) |-> L.m[p[i]]]
PosOf(L, k) == IF \E i \in DOMAIN L.m : L.m[i][1] = k
               THEN CHOOSE i \in DOMAIN L.m : L.m[i][1] = k ELSE -1000000

SetList(s, l, L) ==      \* a list whose range is empty does not exist
  IF ~L.fz /\ L.h = L.t THEN [s EXCEPT !.ls = Del(@, l)] ELSE [s EXCEPT !.ls = Put(@, l, L)]

ListAppend(L, k, v) == [L EXCEPT !.t = @ + 1, !.n = @ + 1, !.m = Put(@, L.t, <<k, v>>)]
ListRemoveAt(L, p) ==
  [L EXCEPT !.m = Del(@, p), !.n = @ - 1,
            !.h = IF p = L.h THEN @ + 1 ELSE @,
            !.t = IF p # L.h /\ p = L.t - 1 THEN @ - 1 ELSE @]
ListCompacted(L) ==
  LET it == Items(L) IN
  [L EXCEPT !.h = L.t, !.t = L.t + Len(it), !.n = Len(it), !.d = 0,
            !.m = [i \in L.t .. L.t + Len(it) - 1 |-> it[i - L.t + 1]]]

ListOps(s, e) ==
  LET ex == Has(s.ls, e.l)
      L == IF ex THEN s.ls[e.l] ELSE EmptyList
      keyed == e.o \in {"lset","lprom","lrep","lgoc","lget","lhas","lrem"}
      p == IF keyed THEN PosOf(L, e.k) ELSE 0
      has == keyed /\ p # -1000000
      old == IF has THEN L.m[p][2] ELSE ""
      upd == SetList(s, e.l, [L EXCEPT !.m[p] = <<e.k, e.v>>])
      app(L0) == SetList(s, e.l, ListAppend(L0, e.k, e.v))
      ps == Positions(L)
      first == ps[1]  last == ps[Len(ps)]
      empty == Len(ps) = 0
      kvr(i) == <<"kv", L.m[i][1], L.m[i][2]>>
  IN CASE e.o = "lset" -> IF has THEN One(upd, <<"prev", old>>) ELSE One(app(L), <<"new">>)
       [] e.o = "lprom" ->
            LET L1 == IF has THEN ListRemoveAt(L, p) ELSE L
                \* removing the only item drops the list record: positions restart
                L2 == IF ~L1.fz /\ L1.h = L1.t THEN EmptyList ELSE L1
            IN One(app(L2), <<"new">>)
       [] e.o = "lrep" ->
            IF ~has THEN One(s, None)
            ELSE IF Len(e.x) = 1 /\ e.x[1] # old THEN One(s, <<"wrong", old>>)
            ELSE One(upd, <<"prev", old>>)
       [] e.o = "lgoc" -> IF has THEN One(s, <<"old", old>>) ELSE One(app(L), <<"new", e.v>>)
       [] e.o = "lget" -> One(s, IF has THEN Some(old) ELSE None)
       [] e.o = "lhas" -> One(s, Bool(has))
       [] e.o = "lrem" -> IF has THEN One(SetList(s, e.l, ListRemoveAt(L, p)), Some(old)) ELSE One(s, None)
       [] e.o = "lpopH" -> IF empty THEN One(s, None) ELSE One(SetList(s, e.l, ListRemoveAt(L, first)), kvr(first))
       [] e.o = "lpopT" -> IF empty THEN One(s, None) ELSE One(SetList(s, e.l, ListRemoveAt(L, last)), kvr(last))
       [] e.o = "lpeekH" -> One(s, IF empty THEN None ELSE kvr(first))
       [] e.o = "lpeekT" -> One(s, IF empty THEN None ELSE kvr(last))
       [] e.o = "liter" -> One(s, <<"seq", Items(L)>>)
       [] e.o = "literb" -> One(s, <<"seq", Reverse(Items(L))>>)
       [] e.o = "llen" -> IF L.fz THEN {[s |-> s, r |-> <<"n", j>>] : j \in Len(ps) .. Len(ps) + L.d}
                          ELSE One(s, <<"n", Len(ps)>>)
       [] e.o = "ldisc" ->
            LET s1 == [s EXCEPT !.ls = Del(@, e.l)]
            IN IF ex /\ empty THEN {[s |-> s1, r |-> Bool(b)] : b \in BOOLEAN}
               ELSE One(s1, Bool(ex))
       [] e.o = "lcomp" ->       \* e.min: minimal span, e.pct: minimal holes percentage
            IF L.fz THEN {[s |-> s, r |-> <<"true">>], [s |-> s, r |-> <<"false">>]}
            ELSE LET span == L.t - L.h  holes == span - L.n
                     doit == ex /\ span >= e.min /\ holes * 100 >= span * e.pct
                 IN IF ~doit THEN One(s, <<"false">>)
                    ELSE One(SetList(s, e.l, ListCompacted(L)), <<"true">>)

-----------------------------------------------------------------------------
(* Queues.  Element positions are visible to the user as indices.          *)
EmptyQueue == [h |-> 0, t |-> 0, n |-> 0, m |-> EmptyFn]
QSeq(Q) == LET p == Positions(Q) IN [i \in 1..Len(p) |-> <<p[i], Q.m[p[i]]>>]
SetQueue(s, q, Q) == IF Q.h = Q.t THEN [s EXCEPT !.qs = Del(@, q)] ELSE [s EXCEPT !.qs = Put(@, q, Q)]
QRemoveAt(Q, p) == [Q EXCEPT !.m = Del(@, p), !.n = @ - 1]

QueueOps(s, e) ==
  LET ex == Has(s.qs, e.q)
      Q == IF ex THEN s.qs[e.q] ELSE EmptyQueue
      ps == Positions(Q)
      empty == Len(ps) = 0
      first == ps[1]  last == ps[Len(ps)]
      iv(i) == <<"iv", i, Q.m[i]>>
      \* popping past holes up to the end removes the (empty) queue
      drop == [s EXCEPT !.qs = Del(@, e.q)]
  IN CASE e.o = "qpushH" ->
            IF ex THEN One([s EXCEPT !.qs = Put(@, e.q, [Q EXCEPT !.h = @ - 1, !.n = @ + 1, !.m = Put(@, Q.h - 1, e.v)])],
                           <<"idx", Q.h - 1>>)
            ELSE One([s EXCEPT !.qs = Put(@, e.q, [h |-> 0, t |-> 1, n |-> 1, m |-> (0 :> e.v)])], <<"idx", 0>>)
       [] e.o = "qpushT" ->
            One([s EXCEPT !.qs = Put(@, e.q, [Q EXCEPT !.t = @ + 1, !.n = @ + 1, !.m = Put(@, Q.t, e.v)])],
                <<"idx", Q.t>>)
       [] e.o = "qpopH" -> IF empty THEN One(drop, None)
                           ELSE One(SetQueue(s, e.q, [QRemoveAt(Q, first) EXCEPT !.h = first + 1]), iv(first))
       [] e.o = "qpopT" -> IF empty THEN One(drop, None)
                           ELSE One(SetQueue(s, e.q, [QRemoveAt(Q, last) EXCEPT !.t = last]), iv(last))
       [] e.o = "qrem" ->
            IF ~Has(Q.m, e.i) THEN One(s, None)
            ELSE LET Q1 == QRemoveAt(Q, e.i)
                     Q2 == IF e.i = Q.h THEN [Q1 EXCEPT !.h = @ + 1]
                           ELSE IF e.i = Q.t - 1 THEN [Q1 EXCEPT !.t = @ - 1] ELSE Q1
                 IN One(SetQueue(s, e.q, Q2), Some(Q.m[e.i]))
       [] e.o = "qext" ->        \* an extend by nothing still creates the queue record
            LET k == Len(e.vs)
            IN One([s EXCEPT !.qs = Put(@, e.q,
                      [Q EXCEPT !.t = @ + k, !.n = @ + k,
                                !.m = [i \in Q.t .. Q.t + k - 1 |-> e.vs[i - Q.t + 1]] @@ @])],
                   <<"rng", Q.t, Q.t + k>>)
       [] e.o = "qpeekH" -> One(s, IF empty THEN None ELSE iv(first))
       [] e.o = "qpeekT" -> One(s, IF empty THEN None ELSE iv(last))
       [] e.o = "qlen" -> One(s, <<"n", Q.n>>)
       [] e.o = "qrange" -> One(s, <<"rng", Q.h, Q.t>>)
       [] e.o = "qiter" -> One(s, <<"seq", QSeq(Q)>>)
       [] e.o = "qiterb" -> One(s, <<"seq", Reverse(QSeq(Q))>>)
       [] e.o = "qdisc" ->
            IF ex /\ empty THEN {[s |-> drop, r |-> Bool(b)] : b \in BOOLEAN}
            ELSE One(drop, Bool(ex))

-----------------------------------------------------------------------------
(* Big values: e.c = the chunks the value was cut into, as the spec sees   *)
(* them only through iteration after a crash; e.v = the whole value.       *)
(* big[k] = [v |-> whole value, c |-> chunk sequence, p |-> known whole]   *)
BigOps(s, e) ==
  LET ex == Has(s.big, e.k)
      B == s.big[e.k]
  IN CASE e.o = "bset" -> One([s EXCEPT !.big = Put(@, e.k, [v |-> e.v, c |-> e.c])], Bool(ex))
       [] e.o = "bget" ->
            IF ex /\ B.v = "?"      \* part of an interrupted write: some bytes
            THEN (IF e.r[1] = "some" THEN One(s, e.r) ELSE {})
            ELSE IF ex /\ B.v = "!" THEN One(s, None)  \* interrupted before its first byte
            ELSE One(s, IF ex THEN Some(B.v) ELSE None)
       [] e.o = "brem" -> One([s EXCEPT !.big = Del(@, e.k)], Bool(ex))

-----------------------------------------------------------------------------
(* Whole-store calls *)
PlainKeys(s) == {k \in DOMAIN s.kv : SubSeq(k, 1, 2) = "p:"}
PlainPairs(s) == {<<k, s.kv[k]>> : k \in PlainKeys(s)}

\* a listing is exact: every pair once and nothing else
ExactListing(seq, pairs) ==
  /\ Len(seq) = Cardinality(pairs)
  /\ {seq[i] : i \in 1..Len(seq)} = pairs

StoreOps(s, e) ==
  CASE e.o = "clear" -> One(InitState, <<"ok">>)
    [] e.o = "flush" -> One(s, <<"ok">>)
    [] e.o = "open2" -> One(s, <<"refused">>)
    [] e.o = "merge" -> {[s |-> s, r |-> <<"true">>], [s |-> s, r |-> <<"false">>]}
    [] e.o = "iter" -> IF ExactListing(e.r[2], PlainPairs(s)) THEN One(s, e.r) ELSE {}
    \* an iteration stopped several times and continued from its cookie; the last part
    \* starts from the cookie of the exhausted iteration
    [] e.o = "iterc" ->
         LET parts == e.r[2]  n == Len(parts)
         IN IF ExactListing(FlattenSeq(SubSeq(parts, 1, n - 1)), PlainPairs(s)) /\ parts[n] = <<>>
            THEN One(s, e.r) ELSE {}
    [] e.o \in {"reopen", "nop"} -> One(s, <<"ok">>)

KVOpNames == {"set","get","has","rem","rep","goc","tset","tget","thas","trem","trep","tgoc","fill","unfill"}
ListOpNames == {"lset","lprom","lrep","lgoc","lget","lhas","lrem","lpopH","lpopT","lpeekH","lpeekT",
                "liter","literb","llen","ldisc","lcomp"}
QueueOpNames == {"qpushH","qpushT","qpopH","qpopT","qrem","qext","qpeekH","qpeekT","qlen","qrange",
                 "qiter","qiterb","qdisc"}
BigOpNames == {"bset","bget","brem"}

Accepted(s, e) ==
  CASE e.o \in KVOpNames -> KV(s, e)
    [] e.o \in ListOpNames -> ListOps(s, e)
    [] e.o \in QueueOpNames -> QueueOps(s, e)
    [] e.o \in BigOpNames -> BigOps(s, e)
    [] OTHER -> StoreOps(s, e)

\* c: configuration of the open store
ApplyC(c, s, e) ==
  LET must == MustRefuse(c, e)  may == MayRefuse(c, e)
  IN {[s |-> s, r |-> <<"err", x>>] : x \in must \cup may}
     \cup (IF must = {} THEN Accepted(s, e) ELSE {})

-----------------------------------------------------------------------------
(* Does the recorded result r say what the specification says?  Typed      *)
(* wrappers and the index-less queue calls report less than the plain ones *)
Match(spec, r) ==
  \/ spec = r
  \/ r[1] = "some" /\ spec[1] \in {"iv", "new", "old"} /\ r[2] = spec[Len(spec)]
  \/ r = <<"tnone">> /\ spec[1] \in {"none", "wrong"}
  \/ r = <<"pushed">> /\ spec[1] = "idx"

-----------------------------------------------------------------------------
(* Crash: what may be found afterwards if the process dies inside e        *)
(* (or e fails because the operating system refused a write).  A multi-    *)
(* record call may be found half done; what half done means is spelled out *)
(* per call: never more than its own effect.                               *)
CrashInside(s, e) ==
  LET done == {x.s : x \in Accepted(s, e)}
      lst(L) == [s EXCEPT !.ls = Put(@, e.l, L)]
      que(Q) == [s EXCEPT !.qs = Put(@, e.q, Q)]
      Q0 == IF Has(s.qs, e.q) THEN s.qs[e.q] ELSE EmptyQueue
      new(Q) == IF Has(s.qs, e.q) THEN {que(Q)} ELSE {que(Q), s}
  IN CASE e.o \in {"iter", "iterc", "itb", "itn", "reopen", "flush", "merge", "nop", "open2", "bget"} -> {s}
       [] e.o \in {"fill"} ->
            UNION {{x.s : x \in KV(s, [e EXCEPT !.kvs = SubSeq(e.kvs, 1, j)])} : j \in 0..Len(e.kvs)}
       [] e.o \in {"unfill"} ->
            UNION {{x.s : x \in KV(s, [e EXCEPT !.ks = SubSeq(e.ks, 1, j)])} : j \in 0..Len(e.ks)}
       [] e.o \in {"lprom"} ->
            LET L == IF Has(s.ls, e.l) THEN s.ls[e.l] ELSE EmptyList
                p == PosOf(L, e.k)
            IN {s} \cup done \cup (IF p = -1000000 THEN {} ELSE {lst(ListRemoveAt(L, p))})
       [] e.o = "ldisc" ->
            IF ~Has(s.ls, e.l) THEN {s}
            ELSE LET L == s.ls[e.l] IN
                 {[s EXCEPT !.ls = Put(@, e.l, [L EXCEPT !.m = [i \in D |-> L.m[i]],
                                                       !.d = @ + Cardinality(DOMAIN L.m) - Cardinality(D)])]
                    : D \in SUBSET DOMAIN L.m} \cup done
       [] e.o = "qdisc" ->
            IF ~Has(s.qs, e.q) THEN {s}
            ELSE {que([Q0 EXCEPT !.m = [i \in D |-> Q0.m[i]]]) : D \in SUBSET DOMAIN Q0.m} \cup done
       \* an element gone but still counted, or counted but not there yet
       [] e.o \in {"qpopH", "qpopT", "qrem"} ->
            {s} \cup done
            \cup (IF DOMAIN Q0.m = {} THEN {}
                  ELSE IF e.o = "qrem"
                  THEN IF Has(Q0.m, e.i) THEN {que([Q0 EXCEPT !.m = Del(@, e.i)])} ELSE {}
                  ELSE LET ps == Positions(Q0)
                           p == IF e.o = "qpopH" THEN ps[1] ELSE ps[Len(ps)]
                       IN {que([Q0 EXCEPT !.m = Del(@, p)])})
       [] e.o = "qpushT" -> {s} \cup done \cup {que([Q0 EXCEPT !.t = @ + 1, !.n = @ + 1])}
       [] e.o = "qpushH" -> {s} \cup done \cup (IF Has(s.qs, e.q) THEN {que([Q0 EXCEPT !.h = @ - 1, !.n = @ + 1])}
                                                ELSE {que([Q0 EXCEPT !.t = @ + 1, !.n = @ + 1])})
       [] e.o = "qext" ->       \* a part of its own elements: any prefix appended
            LET k == Len(e.vs)
                pre(j) == [i \in Q0.t .. Q0.t + j - 1 |-> e.vs[i - Q0.t + 1]] @@ Q0.m
            IN {s} \cup done
               \cup {que([Q0 EXCEPT !.t = @ + j, !.n = @ + j, !.m = pre(j)]) : j \in 0..k}
               \cup {que([Q0 EXCEPT !.t = @ + k, !.n = @ + k, !.m = pre(j)]) : j \in 0..k}
       [] e.o \in {"bset", "brem"} ->
            LET old == IF Has(s.big, e.k) THEN s.big[e.k].c ELSE <<>>
                nw == IF e.o = "bset" THEN e.c ELSE <<>>
                mk(c) == [s EXCEPT !.big = Put(@, e.k, [v |-> IF c = <<>> THEN "!" ELSE "?", c |-> c])]
            IN {s} \cup done \cup {[s EXCEPT !.big = Del(@, e.k)]}
               \cup {mk([i \in 1..Cardinality(D) |-> old[SetToSortSeq(D, <)[i]]]) : D \in SUBSET (1..Len(old))}
               \cup {mk(SubSeq(nw, 1, j)) : j \in 0..Len(nw)}
       [] OTHER -> {s} \cup done

\* the list or queue an unfinished (or failed) call worked on
ListOf(e) == IF e.o \in ListOpNames THEN {e.l} ELSE {}
QueueOf(e) == IF e.o \in QueueOpNames THEN {e.q} ELSE {}

\* after a failed call: its list's positions are no longer known
FailedStates(s, e) ==
  LET C == CrashInside(s, e) IN
  IF e.o \notin ListOpNames THEN C
  ELSE {LET L == IF Has(x.ls, e.l) THEN x.ls[e.l] ELSE EmptyList
        IN [x EXCEPT !.ls = Put(@, e.l, [L EXCEPT !.fz = TRUE, !.d = @ + 1])] : x \in C}
=============================================================================
