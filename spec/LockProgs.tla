------------------------------ MODULE LockProgs ------------------------------
(* What real calls do with locks, recorded call by call, in every interleaving: SCEN holds the sets of programs that
   run side by side (two or three calls that start in the same state of the store, and the background threads' work
   that is waiting then or that they start). The locks are parking_lot's. Someone has not finished, and nobody can go
   on: a deadlock. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES sc, pc, lk
vars == <<sc, pc, lk>>

Scen == ndJsonDeserialize(IOEnv.SCEN)
S == Scen[sc]
Threads == 1..Len(S.th)
Init == /\ sc \in 1..Len(Scen)
        /\ pc = [t \in Threads |-> 1]
        /\ lk = [k \in 1..S.n |-> [w |-> FALSE, u |-> FALSE, r |-> 0]]

Done(t) == pc[t] > Len(S.th[t])
Cur(t) == S.th[t][pc[t]]
Free(k) == ~lk[k].w /\ ~lk[k].u /\ lk[k].r = 0

(* r, R: read, recursive read   u: upgradable read   c, then w: claim as writer, readers are gone   g: upgrade (w
   follows)   m: mutex   T, V, X: the first three, tried   M: mutex, tried   x, y, z, n: release of a reader, writer,
   upgradable reader, mutex   d, e, f: downgrades   b: wait until another thread has got so far *)
Can(o) ==
  LET k == o[2] IN
  CASE o[1] = "r" -> ~lk[k].w
    [] o[1] = "R" -> ~lk[k].w \/ lk[k].r > 0
    [] o[1] \in {"u", "c"} -> ~lk[k].w /\ ~lk[k].u
    [] o[1] = "w" -> lk[k].r = 0
    [] o[1] = "m" -> ~lk[k].w
    [] o[1] = "b" -> pc[k] > o[3]
    [] OTHER -> TRUE
After(o) ==
  LET k == o[2] IN
  CASE o[1] \in {"r", "R", "T"} -> [lk EXCEPT ![k].r = @ + 1]
    [] o[1] \in {"u", "V"} -> [lk EXCEPT ![k].r = @ + 1, ![k].u = TRUE]
    [] o[1] \in {"c", "m", "M", "X"} -> [lk EXCEPT ![k].w = TRUE]
    [] o[1] \in {"g", "G"} -> [lk EXCEPT ![k].r = @ - 1, ![k].u = FALSE, ![k].w = TRUE]
    [] o[1] = "x" -> [lk EXCEPT ![k].r = @ - 1]
    [] o[1] \in {"y", "n"} -> [lk EXCEPT ![k].w = FALSE]
    [] o[1] = "z" -> [lk EXCEPT ![k].r = @ - 1, ![k].u = FALSE]
    [] o[1] = "d" -> [lk EXCEPT ![k].r = @ + 1, ![k].w = FALSE]
    [] o[1] = "e" -> [lk EXCEPT ![k].u = FALSE]
    [] o[1] = "f" -> [lk EXCEPT ![k].r = @ + 1, ![k].u = TRUE, ![k].w = FALSE]
    [] OTHER -> lk
\* a try that fails leaves out what it is held for
Fails(o) ==
  LET k == o[2] IN
  CASE o[1] = "T" -> lk[k].w
    [] o[1] = "V" -> lk[k].w \/ lk[k].u
    [] o[1] \in {"X", "M"} -> ~Free(k)
    [] o[1] = "G" -> lk[k].r > 1
    [] OTHER -> FALSE

Step(t) ==
  /\ ~Done(t)
  /\ LET o == Cur(t) IN
     IF Fails(o) THEN pc' = [pc EXCEPT ![t] = o[3]] /\ lk' = lk
     ELSE Can(o) /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ lk' = After(o)
  /\ sc' = sc
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

NoDeadlock == (\A t \in 1..S.callers : Done(t)) \/ \E t \in Threads : ~Done(t) /\ (Fails(Cur(t)) \/ Can(Cur(t)))
\* the programs themselves make sense
Sane == \A k \in DOMAIN lk : lk[k].r >= 0 /\ (lk[k].w /\ lk[k].u => FALSE)
=============================================================================
