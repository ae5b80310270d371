------------------------------- MODULE Gather -------------------------------
(* Registration and gathering: registries send collectors through a channel, a gatherer takes what is there, asks each
   collector once and forgets those whose metrics are gone. Threads drop the last handles of metrics at any moment. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Variant, Gathers

M == 1 .. 4                                  \* metrics, each with one collector
VARIABLES state, chan, cs, pc, i, result, mustHave, mustNot, n, asked
vars == <<state, chan, cs, pc, i, result, mustHave, mustNot, n, asked>>

Init == /\ state = [m \in M |-> "new"] /\ chan = <<>> /\ cs = <<>>
        /\ pc = "idle" /\ i = 1 /\ result = {} /\ mustHave = {} /\ mustNot = {} /\ n = 0 /\ asked = [m \in M |-> 0]

\* The collector is sent before the builder gives the handle away.
Register(m) == /\ state[m] = "new" /\ state' = [state EXCEPT ![m] = "live"] /\ chan' = Append(chan, m)
               /\ UNCHANGED <<cs, pc, i, result, mustHave, mustNot, n, asked>>
\* The last handle goes.
Drop(m) == /\ state[m] = "live" /\ state' = [state EXCEPT ![m] = "gone"]
           /\ mustHave' = mustHave \ {m} /\ UNCHANGED <<chan, cs, pc, i, result, mustNot, n, asked>>

Live == {m \in M : state[m] = "live"}
Start == /\ pc = "idle" /\ n < Gathers /\ n' = n + 1
         /\ pc' = (IF Variant = "late drain" THEN "ask" ELSE "drain")
         /\ mustHave' = Live /\ mustNot' = {m \in M : state[m] = "gone"}
         /\ result' = {} /\ i' = 1 /\ asked' = [m \in M |-> 0] /\ UNCHANGED <<state, chan, cs>>
Drain == /\ pc = "drain"
         /\ IF chan = <<>> THEN pc' = (IF Variant = "late drain" THEN "idle" ELSE "ask") /\ UNCHANGED <<chan, cs>>
            ELSE chan' = Tail(chan) /\ cs' = Append(cs, Head(chan)) /\ pc' = (IF Variant = "one a time" THEN "ask" ELSE pc)
         /\ UNCHANGED <<state, i, result, mustHave, mustNot, n, asked>>
SwapRemove == [k \in 1 .. Len(cs) - 1 |-> IF k = i THEN cs[Len(cs)] ELSE cs[k]]
Ask == /\ pc = "ask" /\ i <= Len(cs) /\ LET m == cs[i] IN
          /\ asked' = [asked EXCEPT ![m] = @ + 1]
          /\ IF state[m] = "live" THEN result' = result \cup {m} /\ i' = i + 1 /\ UNCHANGED cs
             ELSE /\ cs' = (IF Variant = "keep" THEN cs ELSE SwapRemove)
                  /\ i' = (IF Variant \in {"skip", "keep"} THEN i + 1 ELSE i) /\ UNCHANGED result
       /\ UNCHANGED <<state, chan, pc, mustHave, mustNot, n>>
\* In this variant a dead collector ends the round.
Stop == Variant = "stop" /\ pc = "ask" /\ i <= Len(cs) /\ state[cs[i]] = "gone" /\ pc' = "idle" /\ UNCHANGED <<state, chan, cs, i, result, mustHave, mustNot, n, asked>>
Done == /\ pc = "ask" /\ i > Len(cs) /\ pc' = (IF Variant = "late drain" THEN "drain" ELSE "idle")
        /\ UNCHANGED <<state, chan, cs, i, result, mustHave, mustNot, n, asked>>
Next == (\E m \in M : Register(m) \/ Drop(m)) \/ Start \/ Drain \/ Ask \/ Stop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Drain \/ Ask \/ Done)

\* After a gather: what was live from before it to its end is there, what was gone before it began is not, nobody was asked twice.
Complete == pc = "idle" /\ n > 0 => mustHave \subseteq result
Clean == result \cap mustNot = {}
Once == \A m \in M : asked[m] <= 1
\* No collector is kept for longer than a whole gather after its metric has gone.
Forgotten == pc = "idle" /\ n > 0 => \A k \in DOMAIN cs : cs[k] \notin mustNot
\* Every gather comes to its end.
Ends == []<>(pc = "idle")
OneEach == \A j, k \in DOMAIN cs : j # k => cs[j] # cs[k]
=============================================================================
