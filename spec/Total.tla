-------------------------------- MODULE Total --------------------------------
(* Which answers are there?  Every call returns, in every thread, and panics only where that is documented (C20).      *)
(* The logs are those of Trace and Conc, with the arguments an answer may depend on and what sort of answer it was:    *)
(* "value", "err" or "panic".  A call is pending from its call to its return; what the call before it did, or what     *)
(* others are doing, changes nothing about what it may answer.                                                         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, FiniteSets

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES tr, l, kind, made, pend
vars == <<tr, l, kind, made, pend>>
E == Traces[tr].ev[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* Calls that may refuse their arguments.
Refuse == {"fin", "new", "l_insert", "label_new", "quantile_new"}
Answers(e) ==
  CASE e.op \in {"track_end", "time_end"} -> IF e.panic THEN {"panic"} ELSE {"value"}        \* the closure's own panic
    [] e.op \in {"observe", "observe_all", "observe_many"} /\ e.nan /\ kind[e.h] = "histogram" -> {"panic"}
    [] e.op = "ts_set" /\ e.min -> {"value", "panic"}                                       \* i64::MIN
    [] e.op = "add" -> IF kind[e.h] = "counter" THEN {"value", "err"} ELSE {"value"}
    [] e.op = "gather" -> {"value", "boom"}                                                 \* the panic of a collector of the user
    [] e.op \in Refuse -> {"value", "err"}
    [] OTHER -> {"value"}

\* What is known of the arguments: the kinds of metrics and builders.
Learn(e, ok) ==
  /\ made' = IF e.op = "bld" THEN Put(made, e.b, e.kind) ELSE made
  /\ kind' = CASE e.op = "fin" /\ ok -> Put(kind, e.h, made[e.b])
               [] e.op = "new" /\ ok -> Put(kind, e.h, e.kind)
               [] e.op = "clone" -> Put(kind, e.to, kind[e.h])
               [] OTHER -> kind

Both == E.ev = "seq" /\ E.t \in Answers(E) /\ Learn(E, E.t = "value") /\ UNCHANGED pend
Call == E.ev = "call" /\ E.th \notin DOMAIN pend /\ pend' = Put(pend, E.th, E) /\ UNCHANGED <<kind, made>>
Return == E.ev = "ret" /\ E.th \in DOMAIN pend /\ E.t \in Answers(pend[E.th]) /\ Learn(pend[E.th], E.t = "value") /\ pend' = Del(pend, E.th)
\* Nothing is left without an answer.
End == E.ev = "end" /\ pend = <<>> /\ UNCHANGED <<kind, made, pend>>

Init == tr \in DOMAIN Traces /\ l = 1 /\ kind = <<>> /\ made = <<>> /\ pend = <<>>
Next == l <= Len(Traces[tr].ev) /\ (Both \/ Call \/ Return \/ End) /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Progress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Rejected == {i \in DOMAIN Traces : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == /\ \A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)
            /\ PrintT(<<"VALIDATED", Cardinality(DOMAIN Traces) - Cardinality(Rejected)>>)
            /\ Rejected = {}
=============================================================================
