--------------------------------- MODULE Cow ---------------------------------
(* Labels: an immutable value behind a pointer with a reference count, replaced by writers that copy it, change the copy and
   swap the pointer if it still is the address they copied from. Addresses are used again as soon as nothing refers to them.
   With one writer at a time no change is lost; without that the swap may succeed on an address that means another value
   (ABA), and the change made in between is lost. Readers never hold memory that was given back. *)
EXTENDS Integers, FiniteSets

CONSTANT Variant

Writers == 1 .. 3        \* writer w inserts w
Readers == {11}
Addr == 1 .. 5
T == Writers \cup Readers

VARIABLES ptr, mem, refs, mutex, rw, pc, old, new, bad
vars == <<ptr, mem, refs, mutex, rw, pc, old, new, bad>>

Init == /\ ptr = 1 /\ mem = [a \in Addr |-> {}] /\ refs = [a \in Addr |-> IF a = 1 THEN 1 ELSE 0]
        /\ mutex = 0 /\ rw = 0 /\ pc = [t \in T |-> "idle"] /\ old = [t \in T |-> 0] /\ new = [t \in T |-> 0] /\ bad = FALSE

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Begin(t) == /\ pc[t] = "idle" /\ Go(t, "rlock")
            /\ IF t \in Writers /\ Variant \notin {"no mutex", "blind"} THEN mutex = 0 /\ mutex' = t ELSE UNCHANGED mutex
            /\ UNCHANGED <<ptr, mem, refs, rw, old, new, bad>>
\* The reference is taken under a read lock: no writer gives the value back between the two steps.
RLock(t) == pc[t] = "rlock" /\ (rw >= 0 \/ Variant = "no rwlock") /\ rw' = (IF Variant = "no rwlock" THEN rw ELSE rw + 1) /\ Go(t, "load")
            /\ UNCHANGED <<ptr, mem, refs, mutex, old, new, bad>>
Load(t) == pc[t] = "load" /\ old' = [old EXCEPT ![t] = ptr] /\ Go(t, "ref") /\ UNCHANGED <<ptr, mem, refs, mutex, rw, new, bad>>
Ref(t) == /\ pc[t] = "ref" /\ bad' = (bad \/ refs[old[t]] = 0) /\ refs' = [refs EXCEPT ![old[t]] = @ + 1]
          /\ rw' = (IF Variant = "no rwlock" THEN rw ELSE rw - 1)
          /\ Go(t, IF t \in Writers THEN "copy" ELSE "use") /\ UNCHANGED <<ptr, mem, mutex, old, new>>
\* A reader uses what it holds, then lets go.
Use(t) == pc[t] = "use" /\ bad' = (bad \/ refs[old[t]] = 0) /\ Go(t, "drop") /\ UNCHANGED <<ptr, mem, refs, mutex, rw, old, new>>
Copy(t) == /\ pc[t] = "copy" /\ \E a \in Addr :
              /\ refs[a] = 0 /\ \A b \in Addr : refs[b] = 0 => a <= b
              /\ new' = [new EXCEPT ![t] = a] /\ mem' = [mem EXCEPT ![a] = mem[old[t]] \cup {t}] /\ refs' = [refs EXCEPT ![a] = 1]
           /\ Go(t, "drop") /\ UNCHANGED <<ptr, mutex, rw, old, bad>>
Drop(t) == pc[t] = "drop" /\ refs' = [refs EXCEPT ![old[t]] = @ - 1] /\ Go(t, IF t \in Writers THEN "wlock" ELSE "over")
           /\ UNCHANGED <<ptr, mem, mutex, rw, old, new, bad>>
WLock(t) == pc[t] = "wlock" /\ (rw = 0 \/ Variant = "no rwlock") /\ rw' = (IF Variant = "no rwlock" THEN rw ELSE -1) /\ Go(t, "swap")
            /\ UNCHANGED <<ptr, mem, refs, mutex, old, new, bad>>
Swap(t) == /\ pc[t] = "swap"
           /\ IF ptr = old[t] \/ Variant = "blind"
              THEN ptr' = new[t] /\ refs' = [refs EXCEPT ![ptr] = @ - 1] /\ Go(t, "over") /\ mutex' = (IF mutex = t THEN 0 ELSE mutex)
              ELSE refs' = [refs EXCEPT ![new[t]] = @ - 1] /\ Go(t, "rlock") /\ UNCHANGED <<ptr, mutex>>
           /\ rw' = (IF Variant = "no rwlock" THEN rw ELSE 0) /\ UNCHANGED <<mem, old, new, bad>>
Next == \E t \in T : Begin(t) \/ RLock(t) \/ Load(t) \/ Ref(t) \/ Use(t) \/ Copy(t) \/ Drop(t) \/ WLock(t) \/ Swap(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Begin(t) \/ RLock(t) \/ Load(t) \/ Ref(t) \/ Use(t) \/ Copy(t) \/ Drop(t) \/ WLock(t) \/ Swap(t))

Over(t) == pc[t] = "over"
Ends == <>(\A t \in T : Over(t))
NothingLost == \A t \in Writers : Over(t) => t \in mem[ptr]
Safe == ~bad /\ refs[ptr] > 0
NoLeak == (\A t \in T : Over(t)) => \A a \in Addr : refs[a] = (IF a = ptr THEN 1 ELSE 0)
=============================================================================
