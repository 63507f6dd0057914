------------------------------- MODULE Candy -------------------------------
(***************************************************************************)
(* The store as a transition system: any call of CandyOps may happen next. *)
(*                                                                         *)
(* TLC explores every state reachable with the bounds of the configuration *)
(* and checks on it what the listed properties say about the calls         *)
(* themselves (order, frames, crash outcomes).  Every transition it finds  *)
(* is printed; lib/walk.py turns the printed graph into call sequences     *)
(* that cover all of them, which are then run in the real code, alone,     *)
(* with process deaths, with failing system calls, and pairwise in         *)
(* parallel.                                                               *)
(***************************************************************************)
EXTENDS CandyOps

CONSTANTS Keys, Vals,      \* plain (and typed) entries
          Lists, Items_,   \* lists and the keys of their items
          Queues, Bigs,
          Span,            \* lists and queues span at most that many positions
          MaxSize          \* at most that many entries, items, elements and chunks in all

VARIABLES s,      \* the store
          last    \* [e: the last call, r: its result, p: the state before]
vars == <<s, last>>

Cfg == [maxshard |-> 65536, thr |-> 1024]

-----------------------------------------------------------------------------
(* The calls.  Line(e) is the call in the notation of the harness. *)
Key(k) == k
IsTyped(k) == SubSeq(k, 1, 1) = "t"

KVCalls ==
  UNION {
    LET p == IF IsTyped(k) THEN "t" ELSE "" IN
    {[o |-> p \o "get", k |-> k], [o |-> p \o "has", k |-> k], [o |-> p \o "rem", k |-> k]}
    \cup {[o |-> p \o "set", k |-> k, v |-> v] : v \in Vals}
    \cup {[o |-> p \o "goc", k |-> k, v |-> v] : v \in Vals}
    \cup {[o |-> p \o "rep", k |-> k, v |-> v, x |-> <<>>] : v \in Vals}
    \cup {[o |-> p \o "rep", k |-> k, v |-> v, x |-> <<x>>] : v \in Vals, x \in Vals}
    : k \in Keys}

ListCalls ==
  UNION {
    {[o |-> o, l |-> n] : o \in {"lpopH", "lpopT", "lpeekH", "lpeekT", "liter", "literb", "llen", "ldisc"}}
    \cup {[o |-> "lcomp", l |-> n, min |-> m, pct |-> p] : m \in {0, 3}, p \in {0, 40}}
    \cup {[o |-> o, l |-> n, k |-> k] : o \in {"lget", "lhas", "lrem"}, k \in Items_}
    \cup {[o |-> o, l |-> n, k |-> k, v |-> v] : o \in {"lset", "lprom", "lgoc"}, k \in Items_, v \in Vals}
    \cup {[o |-> "lrep", l |-> n, k |-> k, v |-> v, x |-> x] : k \in Items_, v \in Vals, x \in {<<>>} \cup {<<y>> : y \in Vals}}
    : n \in Lists}

QueueCalls(st) ==
  UNION {
    LET Q == IF n \in DOMAIN st.qs THEN st.qs[n] ELSE EmptyQueue IN
    {[o |-> o, q |-> n] : o \in {"qpopH", "qpopT", "qpeekH", "qpeekT", "qiter", "qiterb", "qlen", "qrange", "qdisc"}}
    \cup {[o |-> o, q |-> n, v |-> v] : o \in {"qpushH", "qpushT"}, v \in Vals}
    \cup {[o |-> "qrem", q |-> n, i |-> i] : i \in Q.h - 1 .. Q.t}
    \cup {[o |-> "qext", q |-> n, vs |-> x] : x \in {<<>>} \cup {<<v>> : v \in Vals} \cup {<<v, w>> : v \in Vals, w \in Vals}}
    : n \in Queues}

\* values of no, one, exactly one full and two chunks
BigVals == {<<"~", <<"~">>>>, <<"x", <<"x">>>>, <<"@65280.1", <<"a">>>>, <<"@65281.2", <<"b", "c">>>>}
BigCalls ==
  UNION {
    {[o |-> "bget", k |-> k], [o |-> "brem", k |-> k]}
    \cup {[o |-> "bset", k |-> k, v |-> b[1], c |-> b[2]] : b \in BigVals}
    : k \in Bigs}

Calls(st) == KVCalls \cup ListCalls \cup QueueCalls(st) \cup BigCalls

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))
\* the specification's name of a plain entry is "p:k", of a typed one "t<type>:<value>"
RECURSIVE Bang(_)
Bang(k) == IF k = "" THEN "" ELSE IF SubSeq(k, 1, 1) = ":" THEN "!" \o SubSeq(k, 2, Len(k)) ELSE SubSeq(k, 1, 1) \o Bang(SubSeq(k, 2, Len(k)))
KeyArg(e) == IF e.o \in KVOpNames THEN (IF IsTyped(e.k) THEN Bang(SubSeq(e.k, 2, Len(e.k))) ELSE SubSeq(e.k, 3, Len(e.k)))
             ELSE e.k
F(e, f) == f \in DOMAIN e
Line(e) ==
  e.o \o (IF F(e, "l") THEN " l=" \o e.l ELSE "") \o (IF F(e, "q") THEN " q=" \o e.q ELSE "")
      \o (IF F(e, "k") THEN " k=" \o KeyArg(e) ELSE "") \o (IF F(e, "v") THEN " v=" \o e.v ELSE "")
      \o (IF F(e, "x") /\ e.x # <<>> THEN " x=" \o e.x[1] ELSE "")
      \o (IF F(e, "i") THEN " i=" \o ToString(e.i) ELSE "")
      \o (IF F(e, "min") THEN " min=" \o ToString(e.min) \o " pct=" \o ToString(e.pct) ELSE "")
      \o (IF F(e, "vs") THEN " vs=" \o Join(e.vs) ELSE "")

-----------------------------------------------------------------------------
\* positions inside a list cannot be seen from outside
Norm(st) == [st EXCEPT !.ls = [n \in DOMAIN @ |->
               LET L == @[n] IN [L EXCEPT !.h = 0, !.t = L.t - L.h, !.m = [i \in {j - L.h : j \in DOMAIN L.m} |-> L.m[i + L.h]]]]]

\* one way of writing a state
PairsOf(f) == {<<i, f[i]>> : i \in DOMAIN f}
Canon(st) == <<PairsOf(st.kv), {<<n, st.ls[n].h, st.ls[n].t, PairsOf(st.ls[n].m)>> : n \in DOMAIN st.ls},
               {<<n, st.qs[n].h, st.qs[n].t, PairsOf(st.qs[n].m)>> : n \in DOMAIN st.qs}, {<<k, st.big[k].v>> : k \in DOMAIN st.big}>>

RECURSIVE SumOver(_)
SumOver(f) == IF DOMAIN f = {} THEN 0
              ELSE LET n == CHOOSE n \in DOMAIN f : TRUE
                   IN f[n].t - f[n].h + SumOver([x \in DOMAIN f \ {n} |-> f[x]])
Size(st) == Cardinality(DOMAIN st.kv)
            + SumOver(st.ls)
            + SumOver(st.qs)
            + Cardinality(DOMAIN st.big)
Within(st) ==
  /\ \A n \in DOMAIN st.ls : st.ls[n].t - st.ls[n].h <= Span
  /\ \A n \in DOMAIN st.qs : st.qs[n].h >= -2 /\ st.qs[n].t <= Span
  /\ Size(st) <= MaxSize

NoCall == [e |-> [o |-> "nop"], r |-> <<"ok">>, p |-> InitState]
Init == s = InitState /\ last = NoCall
Call(e) ==
  \E x \in ApplyC(Cfg, s, e) :
    /\ Within(x.s)
    /\ s' = Norm(x.s)
    /\ last' = [e |-> e, r |-> x.r, p |-> s]
    /\ PrintT("E|" \o Line(e) \o "|" \o ToString(Canon(s)) \o "|" \o ToString(Canon(Norm(x.s))))
Next == \E e \in Calls(s) : Call(e)
Spec == Init /\ [][Next]_vars
View == s

-----------------------------------------------------------------------------
(* C09: a list is an insertion-ordered map *)
ListWF ==
  \A n \in DOMAIN s.ls : LET L == s.ls[n] IN
    /\ \A i \in DOMAIN L.m : L.h <= i /\ i < L.t
    /\ L.n = Cardinality(DOMAIN L.m)
    /\ \A i, j \in DOMAIN L.m : i # j => L.m[i][1] # L.m[j][1]
    /\ L.h < L.t
(* C12: a queue is a double-ended queue with fixed indices *)
QueueWF ==
  \A n \in DOMAIN s.qs : LET Q == s.qs[n] IN
    /\ \A i \in DOMAIN Q.m : Q.h <= i /\ i < Q.t
    /\ Q.n = Cardinality(DOMAIN Q.m)
(* C15: what is stored are the chunks of the last value *)
BigWF == \A k \in DOMAIN s.big : <<s.big[k].v, s.big[k].c>> \in BigVals

ListItems(st, n) == IF n \in DOMAIN st.ls THEN Items(st.ls[n]) ELSE <<>>
KeysOf(it) == [i \in 1..Len(it) |-> it[i][1]]
Without(q, k) == SelectSeq(q, LAMBDA x : x # k)
Queue(st, n) == IF n \in DOMAIN st.qs THEN QSeq(st.qs[n]) ELSE <<>>

\* what lists do to their order
ListStep ==
  LET e == last'.e  r == last'.r  a == ListItems(s, e.l)  b == ListItems(s', e.l)
      ka == KeysOf(a)  kb == KeysOf(b)
      was == \E i \in 1..Len(ka) : ka[i] = e.k
  IN CASE e.o \in {"lset", "lgoc"} -> kb = (IF was THEN ka ELSE Append(ka, e.k))
       [] e.o = "lprom" -> kb = Append(Without(ka, e.k), e.k) /\ b[Len(b)][2] = e.v
       [] e.o = "lrep" -> kb = ka
       [] e.o = "lrem" -> kb = Without(ka, e.k)
       [] e.o = "lpopH" -> b = (IF a = <<>> THEN <<>> ELSE Tail(a)) /\ (a # <<>> => r = <<"kv", a[1][1], a[1][2]>>)
       [] e.o = "lpopT" -> b = (IF a = <<>> THEN <<>> ELSE Front(a)) /\ (a # <<>> => r = <<"kv", a[Len(a)][1], a[Len(a)][2]>>)
       [] e.o = "ldisc" -> b = <<>> /\ (a # <<>> => r = <<"true">>) /\ (r = <<"true">> => e.l \in DOMAIN s.ls)
       [] OTHER -> b = a      \* reads and compaction
\* what queues do to theirs; an index once given never moves
QueueStep ==
  LET e == last'.e  r == last'.r  a == Queue(s, e.q)  b == Queue(s', e.q)
  IN CASE e.o = "qpushT" -> b = Append(a, <<r[2], e.v>>)
       [] e.o = "qpushH" -> b = <<<<r[2], e.v>>>> \o a
       [] e.o = "qpopH" -> b = (IF a = <<>> THEN a ELSE Tail(a))
       [] e.o = "qpopT" -> b = (IF a = <<>> THEN a ELSE Front(a))
       [] e.o = "qrem" -> b = SelectSeq(a, LAMBDA x : x[1] # e.i) /\ (r # <<"none">> <=> Len(b) < Len(a))
       [] e.o = "qext" -> b = a \o [i \in 1..Len(e.vs) |-> <<r[2] + i - 1, e.vs[i]>>] /\ r[3] = r[2] + Len(e.vs)
       [] e.o = "qdisc" -> b = <<>>
       [] OTHER -> b = a
BigStep ==
  LET e == last'.e IN
  CASE e.o = "bset" -> s'.big[e.k].v = e.v /\ (last'.r = <<"true">> <=> e.k \in DOMAIN s.big)
    [] e.o = "brem" -> e.k \notin DOMAIN s'.big /\ (last'.r = <<"true">> <=> e.k \in DOMAIN s.big)
    [] OTHER -> s' = s
KVStep ==
  LET e == last'.e IN
  CASE e.o \in {"set", "tset"} -> s'.kv[e.k] = e.v
    [] e.o \in {"rem", "trem"} -> e.k \notin DOMAIN s'.kv
    [] e.o \in {"goc", "tgoc"} -> e.k \in DOMAIN s'.kv /\ (e.k \in DOMAIN s.kv => s' = s)
    [] e.o \in {"rep", "trep"} -> DOMAIN s'.kv = DOMAIN s.kv
    [] OTHER -> s' = s
\* C16: a call touches nothing but what it names
Frame(st, st1, e) ==
  /\ e.o \notin KVOpNames => st1.kv = st.kv
  /\ e.o \notin ListOpNames => st1.ls = st.ls
  /\ e.o \notin QueueOpNames => st1.qs = st.qs
  /\ e.o \notin BigOpNames => st1.big = st.big
  /\ e.o \in KVOpNames => \A k \in (DOMAIN st.kv \cup DOMAIN st1.kv) \ {e.k} : k \in DOMAIN st.kv /\ k \in DOMAIN st1.kv /\ st.kv[k] = st1.kv[k]
  /\ e.o \in ListOpNames => \A n \in (DOMAIN st.ls \cup DOMAIN st1.ls) \ {e.l} : ListItems(st, n) = ListItems(st1, n)
  /\ e.o \in QueueOpNames => \A n \in (DOMAIN st.qs \cup DOMAIN st1.qs) \ {e.q} : n \in DOMAIN st.qs /\ n \in DOMAIN st1.qs /\ st.qs[n] = st1.qs[n]
Steps ==
  LET e == last'.e IN
  /\ Frame(s, s', e)
  /\ e.o \in ListOpNames => ListStep
  /\ e.o \in QueueOpNames => QueueStep
  /\ e.o \in BigOpNames => BigStep
  /\ e.o \in KVOpNames => KVStep
StepsOk == [][Steps]_vars

(* C04, C11, C14: what a death inside a call may leave *)
Sub(q, a) == \A i \in 1..Len(q) : \E j \in 1..Len(a) : a[j] = q[i]
CrashOk ==
  \A e \in Calls(s) : \A x \in CrashInside(s, e) :
    /\ Frame(s, x, e)
    \* a single-record call is all or nothing
    /\ e.o \in KVOpNames => x = s \/ \E y \in Accepted(s, e) : x = y.s
    /\ e.o \in ListOpNames \ {"ldisc", "lprom", "lcomp"} =>
         ListItems(x, e.l) \in {ListItems(s, e.l)} \cup {ListItems(y.s, e.l) : y \in Accepted(s, e)}
    /\ e.o \in {"ldisc", "lpopH", "lpopT", "lrem"} => Sub(ListItems(x, e.l), ListItems(s, e.l))
    \* no removed element comes back, no element of others is lost
    /\ e.o \in {"qpopH", "qpopT", "qrem", "qdisc"} => Sub(Queue(x, e.q), Queue(s, e.q))
    /\ e.o \in {"qpushH", "qpushT", "qext"} => Sub(Queue(s, e.q), Queue(x, e.q))
    /\ e.o \in {"qpopH", "qpopT", "qrem", "qpushH", "qpushT"} =>
         Queue(x, e.q) \in {Queue(s, e.q)} \cup {Queue(y.s, e.q) : y \in Accepted(s, e)}

(* every call has a result in every state *)
Total == \A e \in Calls(s) : ApplyC(Cfg, s, e) # {}
=============================================================================
