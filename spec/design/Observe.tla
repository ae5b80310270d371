------------------------------- MODULE Observe -------------------------------
(* A histogram, cell by cell: observing adds to a bucket and then to the sum; reading the cumulative counts goes once over
   the buckets, and the text form reads them, the sum and the count one after another. Whatever the schedule, each reading
   lies between what was finished when it began and what had begun when it ended, cumulative counts never decrease, and
   at rest everything agrees. *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Variant

Bucket == << 1, 2, 2, 3 >>          \* the bucket of each observer; its value is a power of two
B == 1 .. 3
Obs == DOMAIN Bucket
VARIABLES bucket, sum, pc, tmp, at, cum, total, low, high, rsum
vars == <<bucket, sum, pc, tmp, at, cum, total, low, high, rsum>>

Init == /\ bucket = [b \in B |-> 0] /\ sum = 0 /\ pc = [t \in Obs |-> "idle"] /\ tmp = [t \in Obs |-> 0]
        /\ at = 0 /\ cum = [b \in B |-> 0] /\ total = 0 /\ low = {} /\ high = {} /\ rsum = 0

Begin(t) == /\ pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "bucket"]
            /\ high' = (IF at \in 1 .. 5 THEN high \cup {t} ELSE high) /\ UNCHANGED <<bucket, sum, tmp, at, cum, total, low, rsum>>
Count(t) == /\ pc[t] = "bucket" /\ pc' = [pc EXCEPT ![t] = IF Variant = "split sum" THEN "read" ELSE "sum"]
            /\ bucket' = [bucket EXCEPT ![Bucket[t]] = @ + 1] /\ UNCHANGED <<sum, tmp, at, cum, total, low, high, rsum>>
ReadSum(t) == pc[t] = "read" /\ pc' = [pc EXCEPT ![t] = "sum"] /\ tmp' = [tmp EXCEPT ![t] = sum] /\ UNCHANGED <<bucket, sum, at, cum, total, low, high, rsum>>
AddSum(t) == /\ pc[t] = "sum" /\ pc' = [pc EXCEPT ![t] = "over"] /\ sum' = (IF Variant = "split sum" THEN tmp[t] ELSE sum) + 2 ^ (t - 1)
             /\ UNCHANGED <<bucket, tmp, at, cum, total, low, high, rsum>>
\* The reader: 0 -> 1 begins, 1..3 the buckets, 4 the sum, 5 the count, 6 over.
Order(k) == IF Variant = "backwards" THEN 4 - k ELSE k
RECURSIVE Upto(_)
Upto(b) == IF b = 0 THEN 0 ELSE bucket[b] + Upto(b - 1)
RBegin == /\ at = 0 /\ at' = 1 /\ low' = {t \in Obs : pc[t] = "over"} /\ high' = {t \in Obs : pc[t] # "idle"}
          /\ UNCHANGED <<bucket, sum, pc, tmp, cum, total, rsum>>
\* "backwards" computes each cumulative count on its own, the last first.
RBucket == /\ at \in B /\ at' = at + 1
           /\ total' = total + bucket[at]
           /\ cum' = [cum EXCEPT ![Order(at)] = IF Variant = "backwards" THEN Upto(Order(at)) ELSE total + bucket[at]]
           /\ UNCHANGED <<bucket, sum, pc, tmp, low, high, rsum>>
RSum == at = 4 /\ at' = 5 /\ rsum' = sum /\ UNCHANGED <<bucket, sum, pc, tmp, cum, total, low, high>>
RCount == at = 5 /\ at' = 6 /\ total' = Upto(3) /\ UNCHANGED <<bucket, sum, pc, tmp, cum, low, high, rsum>>
Next == (\E t \in Obs : Begin(t) \/ Count(t) \/ ReadSum(t) \/ AddSum(t)) \/ RBegin \/ RBucket \/ RSum \/ RCount
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

N(Set, b) == Cardinality({t \in Set : Bucket[t] <= b})
RECURSIVE Value(_)
Value(Set) == IF Set = {} THEN 0 ELSE LET t == CHOOSE t \in Set : TRUE IN 2 ^ (t - 1) + Value(Set \ {t})
Monotone == at = 6 => cum[1] <= cum[2] /\ cum[2] <= cum[3] /\ cum[3] <= total
Between == at = 6 => /\ \A b \in B : N(low, b) <= cum[b] /\ cum[b] <= N(high, b)
                     /\ N(low, 3) <= total /\ total <= N(high, 3)
                     /\ \E Set \in SUBSET high : low \subseteq Set /\ rsum = Value(Set)
Ends == <>(at = 6 /\ \A t \in Obs : pc[t] = "over")
AtRest == (\A t \in Obs : pc[t] = "over") => sum = Value(Obs) /\ Upto(3) = Cardinality(Obs)
=============================================================================
