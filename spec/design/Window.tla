------------------------------- MODULE Window -------------------------------
(* The samples of a summary: a queue under a lock, pruned from its front while the sample there is older than the window,
   by observers and readers alike, with a clock that goes on between any two steps. A reader sees exactly the observations
   of the window; an observation counts from some moment between its beginning and its end. *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Variant, W, Last, NObs, NRead     \* the window, the last moment, how many threads

Obs == 1 .. NObs
Readers == 11 .. 10 + NRead
T == Obs \cup Readers

VARIABLES clock, lock, q, pc, t0, now, began, over, seen
vars == <<clock, lock, q, pc, t0, now, began, over, seen>>

Init == /\ clock = 0 /\ lock = 0 /\ q = <<>>
        /\ pc = [t \in T |-> "idle"] /\ t0 = [t \in T |-> 0] /\ now = [t \in T |-> 0]
        /\ began = [t \in T |-> 0] /\ over = [t \in T |-> Last + 1] /\ seen = [t \in Readers |-> {}]

Tick == clock < Last /\ clock' = clock + 1 /\ UNCHANGED <<lock, q, pc, t0, now, began, over, seen>>

Begin(t) == /\ pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "begun"]
            /\ began' = [began EXCEPT ![t] = clock] /\ t0' = [t0 EXCEPT ![t] = clock]
            /\ UNCHANGED <<clock, lock, q, now, over, seen>>
Lock(t) == /\ pc[t] = "begun" /\ (lock = 0 \/ Variant = "unlocked") /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "locked"]
           /\ UNCHANGED <<clock, q, t0, now, began, over, seen>>
\* The clock is read after the lock is taken.
Time(t) == /\ pc[t] = "locked" /\ pc' = [pc EXCEPT ![t] = "timed"]
           /\ now' = [now EXCEPT ![t] = IF Variant = "early clock" THEN t0[t] ELSE clock]
           /\ UNCHANGED <<clock, lock, q, t0, began, over, seen>>
Age(t, s) == IF now[t] >= s.at THEN now[t] - s.at ELSE 0
Old(t, s) == IF Variant = "inclusive" THEN Age(t, s) >= W ELSE Age(t, s) > W
RECURSIVE Pruned(_, _)
Pruned(t, s) == IF s # <<>> /\ Old(t, Head(s)) THEN Pruned(t, Tail(s)) ELSE s
Pruning(t) == IF Variant = "one at a time" THEN (IF q # <<>> /\ Old(t, Head(q)) THEN Tail(q) ELSE q)
              ELSE IF Variant = "observers prune" /\ t \in Readers THEN q
              ELSE Pruned(t, q)
Prune(t) == /\ pc[t] = "timed" /\ q' = Pruning(t) /\ pc' = [pc EXCEPT ![t] = "pruned"]
            /\ UNCHANGED <<clock, lock, t0, now, began, over, seen>>
Act(t) == /\ pc[t] = "pruned" /\ pc' = [pc EXCEPT ![t] = "acted"]
          /\ IF t \in Obs THEN q' = Append(q, [who |-> t, at |-> now[t]]) /\ UNCHANGED seen
             ELSE seen' = [seen EXCEPT ![t] = {q[i].who : i \in DOMAIN q}] /\ UNCHANGED q
          /\ UNCHANGED <<clock, lock, t0, now, began, over>>
End(t) == /\ pc[t] = "acted" /\ pc' = [pc EXCEPT ![t] = "over"] /\ lock' = 0 /\ over' = [over EXCEPT ![t] = clock]
          /\ UNCHANGED <<clock, q, t0, now, began, seen>>
Next == Tick \/ \E t \in T : Begin(t) \/ Lock(t) \/ Time(t) \/ Prune(t) \/ Act(t) \/ End(t)
Spec == Init /\ [][Next]_vars

\* In the order of their times; nothing twice.
Ordered == \A i, j \in DOMAIN q : i < j => q[i].at <= q[j].at /\ q[i].who # q[j].who
\* What is out of every window it could be in is not seen; what was observed before the reader began, and was in no case
\* older than the window when it ended, is seen.
Exact == \A r \in Readers : pc[r] = "over" => \A t \in Obs :
            /\ over[t] + W < began[r] => t \notin seen[r]
            /\ (over[t] < began[r] /\ over[r] <= began[t] + W) => t \in seen[r]
            /\ began[t] > over[r] => t \notin seen[r]
=============================================================================
