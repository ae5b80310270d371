-------------------------------- MODULE Proc --------------------------------
(* Process metrics (C17): the process as its own operations change it, and what a gather of the process collector  *)
(* must report.  Logs of the real crate are validated like in Trace.                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
N == INSTANCE Num
F(i) == Data.F[i]
Str(i) == Data.S[i].c

VARIABLES tr, l,
  fds, threads, soft,     \* the process
  mapped,        \* sequence of mappings: megabytes mapped, megabytes of them in use
  start,                  \* gatherer -> the start time it reported first
  cpu                     \* the largest CPU time reported so far (0 or the number)
vars == <<tr, l, fds, threads, soft, mapped, start, cpu>>
E == Traces[tr].ev[l]
R == E.ret

-----------------------------------------------------------------------------
PREFIX == <<112, 114, 111, 99, 101, 115, 115, 95>>
\* The families of a result by the rest of the name.
Fam(r, name) == {i \in DOMAIN r.fams : Str(r.fams[i].full) = PREFIX \o name}
Value(r, i) == F(r.fams[i].series[1].v)
One(r, i, kind) == r.fams[i].kind = kind /\ Len(r.fams[i].series) = 1 /\ r.fams[i].series[1].labels = <<>>
\* Reported exactly once, as a number with property Ok; or, if the process has no descriptor left with which the system
\* could be asked, not at all.
Starved == fds >= soft
Reports(r, name, kind, Ok(_)) ==
  LET c == Fam(r, name)
  IN /\ Cardinality(c) <= 1
     /\ c = {} => Starved
     /\ \A i \in c : One(r, i, kind) /\ Ok(Value(r, i))
MB == N!Whole(1048576)
\* x between the smaller of a and b, less some slack, and the larger of them, plus some slack (numbers).
Between(a, b, slack, x) == \/ a.c = "none" \/ b.c = "none"      \* not known
                           \/ /\ N!Le(N!Sub(a, slack), x) \/ N!Le(N!Sub(b, slack), x)
                              /\ N!Le(x, N!Add(a, slack)) \/ N!Le(x, N!Add(b, slack))
Fig(x) == IF x = 0 THEN N!Unknown ELSE F(x)
\* CPU time in hundredths of a tick, to compare with ticks.
CpuOk(x, before, after) ==
  LET t == N!Mul(x, before.hz)
  IN N!Le(N!Whole(before.ticks - 1), t) /\ N!Le(t, N!Whole(after.ticks + 1))

MAXFDS == <<109, 97, 120, 95, 102, 100, 115>>
OPENFDS == <<111, 112, 101, 110, 95, 102, 100, 115>>
CPU == <<99, 112, 117, 95, 115, 101, 99, 111, 110, 100, 115, 95, 116, 111, 116, 97, 108>>
START == <<115, 116, 97, 114, 116, 95, 116, 105, 109, 101, 95, 115, 101, 99, 111, 110, 100, 115>>
THREADS == <<116, 104, 114, 101, 97, 100, 115, 95, 116, 111, 116, 97, 108>>
VM == <<118, 105, 114, 116, 117, 97, 108, 95, 109, 101, 109, 111, 114, 121, 95, 98, 121, 116, 101, 115>>
RSS == <<114, 101, 115, 105, 100, 101, 110, 116, 95, 109, 101, 109, 111, 114, 121, 95, 98, 121, 116, 101, 115>>

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
IsFds(x) == N!Eq(N!Whole(fds), x)
IsSoft(x) == N!Eq(N!Whole(soft), x)
IsThreads(x) == N!Eq(N!Whole(threads), x)
IsCpu(x) == /\ CpuOk(x, R.before, R.after)
            /\ IF cpu = 0 THEN TRUE ELSE N!Le(F(cpu), x)
IsStart(x) == E.g \in DOMAIN start => N!Same(F(start[E.g]), x)
IsVm(x) == Between(Fig(R.before.vm), Fig(R.after.vm), N!Whole(1048576), x) /\ N!Le(N!Mul(MB, Sum(mapped)), x)
IsRss(x) == Between(Fig(R.before.rss), Fig(R.after.rss), N!Whole(8 * 1048576), x)
Id(r, name) == LET c == Fam(r, name) IN IF c = {} THEN 0 ELSE r.fams[CHOOSE i \in c : TRUE].series[1].v

proc == <<fds, threads, soft, mapped>>
Step ==
  CASE E.op = "init" -> /\ fds' = E.fds /\ threads' = E.threads /\ soft' = E.soft
                        /\ UNCHANGED <<mapped, start, cpu>>
    [] E.op \in {"collector", "name", "burn", "child", "wall"} -> R.t = "ok" /\ UNCHANGED <<proc, start, cpu>>
    [] E.op = "spawn" -> threads' = threads + E.n /\ UNCHANGED <<fds, soft, mapped, start, cpu>>
    [] E.op = "join" -> threads' = threads - E.n /\ UNCHANGED <<fds, soft, mapped, start, cpu>>
    [] E.op \in {"open", "dup"} -> fds' = fds + E.n /\ UNCHANGED <<threads, soft, mapped, start, cpu>>
    [] E.op = "close" -> fds' = fds - E.n /\ UNCHANGED <<threads, soft, mapped, start, cpu>>
    [] E.op = "limit" -> soft' = E.soft /\ UNCHANGED <<fds, threads, mapped, start, cpu>>
    [] E.op = "map" -> mapped' = Append(mapped, E.mb) /\ UNCHANGED <<fds, threads, soft, start, cpu>>
    [] E.op = "unmap" -> mapped' = Front(mapped) /\ UNCHANGED <<fds, threads, soft, start, cpu>>
    [] E.op = "gather" ->
         /\ R.t = "res"
         /\ Reports(R, MAXFDS, "gauge", IsSoft)
         /\ Reports(R, OPENFDS, "gauge", IsFds)
         /\ Reports(R, THREADS, "gauge", IsThreads)
         /\ Reports(R, CPU, "counter", IsCpu)
         /\ Reports(R, START, "gauge", IsStart)
         /\ Reports(R, VM, "gauge", IsVm)
         /\ Reports(R, RSS, "gauge", IsRss)
         /\ cpu' = IF Id(R, CPU) = 0 THEN cpu ELSE Id(R, CPU)
         /\ start' = IF Id(R, START) = 0 THEN start ELSE (E.g :> Id(R, START)) @@ start
         /\ UNCHANGED proc

Init == /\ tr \in DOMAIN Traces /\ l = 1
        /\ fds = 0 /\ threads = 0 /\ soft = 0 /\ mapped = <<>> /\ start = <<>> /\ cpu = 0
Next == l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Progress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Rejected == {i \in DOMAIN Traces : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == /\ \A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)
            /\ PrintT(<<"VALIDATED", Cardinality(DOMAIN Traces) - Cardinality(Rejected)>>)
            /\ Rejected = {}
=============================================================================
