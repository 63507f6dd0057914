----------------------------- MODULE FlushDesign -----------------------------
(* Aggregated flushing of one shard: whoever changed it waits until its change was synced, either by a sync of its own
   or by one that somebody else was still delaying. Syncs can fail. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Calls, MaxFaults, Bugs
VARIABLES pc,      \* where a thread is
          dirty,   \* changes that were made and not yet covered by a sync: thread -> number of changes
          holder,  \* who holds the mutex
          delaying, failed, err, saw, left, faults, bad, errs, syncing
vars == <<pc, dirty, holder, delaying, failed, err, saw, left, faults, bad, errs, syncing>>
Bug(b) == b \in Bugs
Nobody == 0

\* the change itself, under the row's lock
Change(t) == /\ pc[t] = "idle" /\ left[t] > 0
             /\ dirty' = dirty \cup {t} /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ pc' = [pc EXCEPT ![t] = "try"]
             /\ UNCHANGED <<holder, delaying, failed, err, saw, faults, bad, errs, syncing>>
Try(t) == /\ pc[t] = "try"
          /\ IF holder = Nobody THEN holder' = t /\ pc' = [pc EXCEPT ![t] = "delay"]
             ELSE UNCHANGED holder /\ pc' = [pc EXCEPT ![t] = "look"]
          /\ UNCHANGED <<dirty, delaying, failed, err, saw, left, faults, bad, errs, syncing>>
LookFailed(t) == /\ pc[t] = "look"
                 /\ errs' = [errs EXCEPT ![t] = IF Bug("failures_read_late") THEN @ ELSE failed]
                 /\ pc' = [pc EXCEPT ![t] = "look2"]
                 /\ UNCHANGED <<dirty, holder, delaying, failed, err, saw, left, faults, bad, syncing>>
LookDelay(t) == /\ pc[t] = "look2"
                /\ saw' = [saw EXCEPT ![t] = delaying]
                /\ pc' = [pc EXCEPT ![t] = IF Bug("failures_read_late") THEN "look3" ELSE "wait"]
                /\ UNCHANGED <<dirty, holder, delaying, failed, err, left, faults, bad, errs, syncing>>
LookLate(t) == /\ pc[t] = "look3"
               /\ errs' = [errs EXCEPT ![t] = failed] /\ pc' = [pc EXCEPT ![t] = "wait"]
               /\ UNCHANGED <<dirty, holder, delaying, failed, err, saw, left, faults, bad, syncing>>
\* the number of failed syncs is compared, so that somebody else's failure isn't taken for a success
Wait(t) == /\ pc[t] = "wait" /\ holder = Nobody
           /\ LET covered == (saw[t] /\ (errs[t] = failed \/ Bug("failures_ignored"))) \/ Bug("never_syncs") IN
              IF covered THEN UNCHANGED holder /\ pc' = [pc EXCEPT ![t] = "return"]
              ELSE holder' = t /\ pc' = [pc EXCEPT ![t] = "delay"]
           /\ saw' = [saw EXCEPT ![t] = FALSE] /\ errs' = [errs EXCEPT ![t] = 0]
           /\ UNCHANGED <<dirty, delaying, failed, err, left, faults, bad, syncing>>
Delay(t) == /\ pc[t] = "delay" /\ delaying' = TRUE /\ pc' = [pc EXCEPT ![t] = "wake"]
            /\ UNCHANGED <<dirty, holder, failed, err, saw, left, faults, bad, errs, syncing>>
Wake(t) == /\ pc[t] = "wake"
           /\ delaying' = (IF Bug("delay_ends_after_sync") THEN delaying ELSE FALSE)
           /\ syncing' = [syncing EXCEPT ![t] = dirty] \* a sync covers what had been changed when it was issued
           /\ pc' = [pc EXCEPT ![t] = "sync"]
           /\ UNCHANGED <<dirty, holder, failed, err, saw, left, faults, bad, errs>>
Sync(t) == /\ pc[t] = "sync"
           /\ \/ dirty' = dirty \ syncing[t] /\ UNCHANGED <<failed, faults, err>>
              \/ /\ faults < MaxFaults /\ faults' = faults + 1
                 /\ failed' = failed + 1 /\ err' = [err EXCEPT ![t] = TRUE] /\ UNCHANGED dirty
           /\ pc' = [pc EXCEPT ![t] = "unlock"]
           /\ syncing' = [syncing EXCEPT ![t] = {}]
           /\ UNCHANGED <<holder, delaying, saw, left, bad, errs>>
Unlock(t) == /\ pc[t] = "unlock" /\ holder' = Nobody /\ pc' = [pc EXCEPT ![t] = "return"]
             /\ delaying' = (IF Bug("delay_ends_after_sync") THEN FALSE ELSE delaying)
             /\ UNCHANGED <<dirty, failed, err, saw, left, faults, bad, errs, syncing>>
Return(t) == /\ pc[t] = "return"
             /\ bad' = (bad \/ (~err[t] /\ t \in dirty))
             /\ dirty' = dirty \ {t} /\ err' = [err EXCEPT ![t] = FALSE]
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<holder, delaying, failed, saw, left, faults, errs, syncing>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ dirty = {} /\ holder = Nobody /\ delaying = FALSE /\ failed = 0
        /\ err = [t \in Threads |-> FALSE] /\ saw = [t \in Threads |-> FALSE] /\ left = [t \in Threads |-> Calls]
        /\ faults = 0 /\ bad = FALSE /\ errs = [t \in Threads |-> 0] /\ syncing = [t \in Threads |-> {}]
Next == ~bad /\ \E t \in Threads : Change(t) \/ Try(t) \/ LookFailed(t) \/ LookDelay(t) \/ LookLate(t) \/ Wait(t) \/ Delay(t) \/ Wake(t) \/ Sync(t) \/ Unlock(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Synced == ~bad
\* everybody returns
Done == <>(\A t \in Threads : pc[t] = "idle" /\ left[t] = 0)
=============================================================================
