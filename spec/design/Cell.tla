-------------------------------- MODULE Cell --------------------------------
(* The cell of a counter or a gauge, at the level of single atomic operations: adding is a loop of a load and a
   compare-and-swap that may also fail for no reason; setting is a store; reading a load. Whatever the schedule, the calls
   have the results and leave the value they would have one after another, in an order that respects which call was over
   before which began (what the value part of Prometrics.tla and Conc.tla says of the calls as a whole). *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Variant    \* "" is the crate's algorithm

\* The calls of each thread.
Program == << <<[op |-> "add", x |-> 1], [op |-> "read", x |-> 0]>>,
              <<[op |-> "add", x |-> 2], [op |-> "add", x |-> 4]>>,
              <<[op |-> "set", x |-> 100], [op |-> "read", x |-> 0]>> >>
T == DOMAIN Program
Calls == {c \in T \X (1 .. 2) : c[2] \in DOMAIN Program[c[1]]}
Op(c) == Program[c[1]][c[2]]

VARIABLES cell, pc, old, new, at, res, pre, done
vars == <<cell, pc, old, new, at, res, pre, done>>

Init == /\ cell = 0
        /\ pc = [t \in T |-> "idle"] /\ old = [t \in T |-> 0] /\ new = [t \in T |-> 0] /\ at = [t \in T |-> 1]
        /\ res = [c \in Calls |-> 0] /\ pre = [c \in Calls |-> {}] /\ done = {}

Now(t) == <<t, at[t]>>
Start(t) == /\ pc[t] = "idle" /\ at[t] \in DOMAIN Program[t]
            /\ pre' = [pre EXCEPT ![Now(t)] = done]
            /\ pc' = [pc EXCEPT ![t] = CASE Op(Now(t)).op = "add" -> "load" [] Op(Now(t)).op = "set" -> "store" [] OTHER -> "get"]
            /\ UNCHANGED <<cell, old, new, at, res, done>>
Finish(t, v) == /\ res' = [res EXCEPT ![Now(t)] = v] /\ done' = done \cup {Now(t)}
                /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "idle"]
Get(t) == pc[t] = "get" /\ Finish(t, cell) /\ UNCHANGED <<cell, old, new, pre>>
Store(t) == pc[t] = "store" /\ cell' = Op(Now(t)).x /\ Finish(t, 0) /\ UNCHANGED <<old, new, pre>>
Load(t) == /\ pc[t] = "load" /\ old' = [old EXCEPT ![t] = cell] /\ new' = [new EXCEPT ![t] = cell + Op(Now(t)).x]
           /\ pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<cell, at, res, pre, done>>
Works(t) == /\ pc[t] = "cas" /\ (Variant = "store" \/ cell = old[t])
            /\ cell' = new[t] /\ Finish(t, 0) /\ UNCHANGED <<old, new, pre>>
Fails(t) == /\ pc[t] = "cas" /\ Variant # "store"
            /\ IF Variant = "once" THEN Finish(t, 0) /\ UNCHANGED <<old, new>>
               ELSE /\ old' = [old EXCEPT ![t] = cell]
                    /\ new' = IF Variant = "stale" THEN new ELSE [new EXCEPT ![t] = cell + Op(Now(t)).x]
                    /\ UNCHANGED <<pc, at, res, done>>
            /\ UNCHANGED <<cell, pre>>
Next == \E t \in T : Start(t) \/ Get(t) \/ Store(t) \/ Load(t) \/ Works(t) \/ Fails(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Start(t) \/ Get(t) \/ Store(t) \/ Load(t)) /\ WF_vars(Works(t) \/ Fails(t)) /\ SF_vars(Works(t))

\* Is there an order of all calls, from value v on with the calls of left still to come, that explains everything?
RECURSIVE Explained(_, _)
Explained(left, v) ==
    IF left = {} THEN v = cell
    ELSE \E c \in left : /\ \A d \in left : d \notin pre[c]
                         /\ CASE Op(c).op = "add" -> Explained(left \ {c}, v + Op(c).x)
                              [] Op(c).op = "set" -> Explained(left \ {c}, Op(c).x)
                              [] OTHER -> res[c] = v /\ Explained(left \ {c}, v)
Linearizable == done = Calls => Explained(Calls, 0)
Ends == <>(done = Calls)
=============================================================================
