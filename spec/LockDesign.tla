----------------------------- MODULE LockDesign -----------------------------
(* Who takes which locks in which order, and who waits for whom. Each call is a program of lock operations; the locks
   are parking_lot's: a reader also waits for writers that are already waiting, unless it reads recursively, and an
   upgradable reader admits readers until it upgrades. Deadlock is a state in which nobody can go on although someone
   has not finished. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxCalls, Kinds, Bugs

VARIABLES prog,   \* thread -> what is left of its call's program
          held,   \* thread -> set of <<lock, mode>>
          parked, \* writers that are waiting: set of <<thread, lock>>
          jobs,   \* the compaction submitted: "none", "queued", "running", "done"
          left
vars == <<prog, held, parked, jobs, left>>
Bug(b) == b \in Bugs

\* locks: K1, K2 (of lists and queues), N0 (the root), N1 and N2 (its leaves), F (a leaf's files), R (one of its rows), H (the
\* handle of its compaction), A (aggregating flushes), S (statistics)
Get      == <<"r N0", "r N1", "r F", "r R", "- R", "- F", "- N1", "- N0">>
Agg      == IF Bug("flush_reads_plainly") THEN <<"? A", "r2 F", "-2 F", "- A">> ELSE <<"? A", "rr F", "-2 F", "- A">>
Change   == <<"r F", "w R", "- R">> \o Agg \o <<"- F">>
Begin    == IF Bug("submits_before_releasing") THEN <<"l H", "w F", "submit", "wait", "- F", "- H">> ELSE <<"l H", "w F", "submit", "- F", "- H">>
SetKey   == <<"r N0", "r N1">> \o Change \o <<"- N1", "- N0">>
SetBegin == <<"r N0", "r N1">> \o Change \o Begin \o <<"- N1", "- N0">>
Settle   == IF Bug("settles_with_files_held") THEN <<"l H", "r F", "wait", "- F", "- H">> ELSE <<"l H", "wait", "r F", "- F", "w F", "- F", "- H">>
SetSplit == <<"r N0", "r N1", "r F", "w R", "- R", "- F", "- N1", "w N1">> \o Settle \o <<"w F", "l S", "- S", "- F", "- N1", "r N1">> \o Change \o <<"- N1", "- N0">>
Merge    == <<"w N0", "w N1", "- N1", "w N2", "- N2", "r N1", "r N2">> \o Settle \o <<"w F", "- F", "- N2", "- N1", "- N0">>
Stats    == <<"r N0", "r N1">> \o Settle \o <<"r F", "- F", "- N1", "- N0", "l S", "- S">>
Flush    == <<"r N0", "r N1", "rr F", "- F", "- N1", "- N0">>
ListOp   == <<"l K1">> \o SetKey \o SetBegin \o <<"- K1">>
List2Op  == <<"l K2">> \o Get \o SetKey \o <<"- K2">>
IterList == <<"l K1">> \o Get \o <<"- K1">> \o Get
Clear    == (IF Bug("clear_locks_last") THEN <<"w N0", "l K1", "l K2">> ELSE <<"l K1", "l K2", "w N0">>)
              \o <<"r N1", "l H", "wait", "- H", "- N1", "- N0", "l S", "- S", "- K2", "- K1">>
Clear2   == IF Bug("clears_in_any_order") THEN <<"l K2", "l K1">> \o SubSeq(Clear, 3, Len(Clear)) ELSE Clear
Call(k) == CASE k = "get" -> Get [] k = "set" -> SetKey [] k = "setc" -> SetBegin [] k = "split" -> SetSplit [] k = "merge" -> Merge
             [] k = "stats" -> Stats [] k = "flush" -> Flush [] k = "list" -> ListOp [] k = "list2" -> List2Op [] k = "iter" -> IterList
             [] k = "clear" -> Clear [] k = "clear2" -> Clear2
\* the compaction thread: rows one after the other, then the files are exchanged
Compaction == IF Bug("compacts_rows_first") THEN <<"w R", "u F", "- R", "up F", "l S", "- S", "- F", "done">>
              ELSE <<"u F", "w R", "- R", "w R", "- R", "l S", "- S", "up F", "- F", "done">>

P == 0      \* the compaction thread
All == Threads \cup {P}
OpOf(s) == CASE s \in {"submit", "wait", "done"} -> s [] OTHER -> LET n == CHOOSE i \in 1..3 : SubSeq(s, i, i) = " " IN SubSeq(s, 1, n - 1)
LockOf(s) == IF s \in {"submit", "wait", "done"} THEN "" ELSE LET n == CHOOSE i \in 1..3 : SubSeq(s, i, i) = " " IN SubSeq(s, n + 1, Len(s))
Modes(t, k) == {x[2] : x \in {y \in held[t] : y[1] = k}}
Has(t, k, m) == <<k, m>> \in held[t]
OthersHold(t, k, ms) == \E u \in All \ {t} : Modes(u, k) \cap ms /= {}
AnyHolds(k, ms) == \E u \in All : Modes(u, k) \cap ms /= {}
WriterWaits(k) == \E u \in All : <<u, k>> \in parked

Take(t, k, m) == held' = [held EXCEPT ![t] = @ \cup {<<k, m>>}]
Next1(t) == prog' = [prog EXCEPT ![t] = Tail(@)]
Unpark(t, k) == parked' = parked \ {<<t, k>>}
Step(t) ==
  /\ prog[t] /= <<>>
  /\ LET s == prog[t][1]  op == OpOf(s)  k == LockOf(s) IN
     \/ /\ op \in {"r", "r2"} /\ ~AnyHolds(k, {"w"}) /\ ~WriterWaits(k)
        /\ Take(t, k, op) /\ Next1(t) /\ UNCHANGED <<parked, jobs>>
     \/ /\ op = "rr" /\ ~AnyHolds(k, {"w"})
        /\ Take(t, k, "r2") /\ Next1(t) /\ UNCHANGED <<parked, jobs>>
     \/ /\ op \in {"w", "l"} /\ ~AnyHolds(k, {"r", "r2", "w", "u"})
        /\ Take(t, k, "w") /\ Next1(t) /\ Unpark(t, k) /\ UNCHANGED jobs
     \/ /\ op \in {"w", "l"} /\ AnyHolds(k, {"r", "r2", "w", "u"}) /\ <<t, k>> \notin parked
        /\ parked' = parked \cup {<<t, k>>} /\ UNCHANGED <<prog, held, jobs>>
     \/ /\ op = "u" /\ ~AnyHolds(k, {"w", "u"}) /\ ~WriterWaits(k)
        /\ Take(t, k, "u") /\ Next1(t) /\ UNCHANGED <<parked, jobs>>
     \/ /\ op = "up" /\ ~OthersHold(t, k, {"r", "r2", "w", "u"})
        /\ held' = [held EXCEPT ![t] = (@ \ {<<k, "u">>}) \cup {<<k, "w">>}] /\ Next1(t) /\ Unpark(t, k) /\ UNCHANGED jobs
     \/ \* a waiting upgrade keeps new readers out
        /\ op = "up" /\ OthersHold(t, k, {"r", "r2", "w", "u"}) /\ <<t, k>> \notin parked
        /\ parked' = parked \cup {<<t, k>>} /\ UNCHANGED <<prog, held, jobs>>
     \/ \* try to lock; whoever fails waits, and then either is done or does the same
        /\ op = "?" /\ ~AnyHolds(k, {"w"})
        /\ \E skip \in BOOLEAN : IF skip THEN prog' = [prog EXCEPT ![t] = SubSeq(@, 5, Len(@))] /\ UNCHANGED held
                                 ELSE Take(t, k, "w") /\ Next1(t)
        /\ UNCHANGED <<parked, jobs>>
     \/ /\ op = "-2" /\ held' = [held EXCEPT ![t] = @ \ {<<k, "r2">>}] /\ Next1(t) /\ UNCHANGED <<parked, jobs>>
     \/ /\ op = "-" /\ held' = [held EXCEPT ![t] = {x \in @ : x[1] /= k \/ (x[2] = "r2" /\ <<k, "r">> \in @)}] /\ Next1(t) /\ UNCHANGED <<parked, jobs>>
     \/ /\ op = "submit" /\ jobs' = (IF jobs \in {"none", "done"} THEN "queued" ELSE jobs) /\ Next1(t) /\ UNCHANGED <<held, parked>>
     \/ \* nothing to wait for, or it is done
        /\ op = "wait" /\ (jobs = "none" \/ jobs = "done") /\ jobs' = "none" /\ Next1(t) /\ UNCHANGED <<held, parked>>
     \/ /\ op = "done" /\ jobs' = "done" /\ Next1(t) /\ UNCHANGED <<held, parked>>
  /\ UNCHANGED left

CallOne(t) == /\ prog[t] = <<>> /\ left[t] > 0
              /\ \E k \in Kinds : prog' = [prog EXCEPT ![t] = Call(k)]
              /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<held, parked, jobs>>
Compacts == /\ prog[P] = <<>> /\ jobs = "queued" /\ jobs' = "running"
            /\ prog' = [prog EXCEPT ![P] = Compaction] /\ UNCHANGED <<held, parked, left>>

Init == /\ prog = [t \in All |-> <<>>] /\ held = [t \in All |-> {}] /\ parked = {} /\ jobs = "none"
        /\ left = [t \in Threads |-> MaxCalls]
Finished == (\A t \in All : prog[t] = <<>>) /\ (\A t \in Threads : left[t] = 0) /\ jobs /= "queued"
Next == (\E t \in All : Step(t)) \/ (\E t \in Threads : CallOne(t)) \/ Compacts \/ (Finished /\ UNCHANGED vars)
Perms == Permutations(Threads)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* locks exclude each other, and are all released in the end
Exclusive == \A t, u \in All : t /= u => \A x \in held[t], y \in held[u] : x[1] = y[1] => x[2] /= "w" /\ y[2] /= "w" /\ ~(x[2] = "u" /\ y[2] = "u")
Released == \A t \in All : prog[t] = <<>> => held[t] = {} 
=============================================================================
