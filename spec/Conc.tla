-------------------------------- MODULE Conc --------------------------------
(* The concurrent specification: logs of calls and returns of several threads.  A log is a sequential part (Trace),   *)
(* calls and returns, the event "join", and a sequential part again.                                                 *)
(*                                                                                                                *)
(* Between its call and its return an operation takes effect as follows.                                          *)
(*  - Writes of gauges, labels, timestamps and handles take effect at one moment each (Lin).                         *)
(*  - Amounts added to counters and observations are contributions: each count, bucket, sum and sample set of a       *)
(*    metric receives it at some moment of its own, so that a reader sees, of each of them, every contribution whose   *)
(*    call returned before it began, none that starts after it ended, and any of the rest; but what a reader has seen  *)
(*    is seen by every later one.                                                                                    *)
(*  - A reader of a gauge, of labels or of a timestamp sees a value it had at some moment between call and return.    *)
(*  - A gather is such a reader of everything: of which collectors are registered and alive, and of their metrics.    *)
(*                                                                                                                *)
(* Internal moments are chosen as late as possible: right before a return that depends on them.                       *)
EXTENDS Trace, FiniteSetsExt, Functions

VARIABLES pend,     \* thread -> its operation in progress
          con,      \* the contributions so far: [j, m, x, t]; j is the position of the call
          ap,       \* which of them have been seen, of which field: <<j, field>>
          done,     \* the calls that returned
          regs      \* registrations in progress: [j, g, c]
cvars == <<tr, l, S, perm, pend, con, ap, done, regs>>

Ev == Traces[tr].ev
Running == DOMAIN pend
Commutes(m) == m.kind # "gauge"

-----------------------------------------------------------------------------
(* Writes with a moment of their own.                                                                              *)
Lins == {"inc", "dec", "add", "sub", "set", "set_now", "track_begin", "track_end", "time_end", "l_insert", "l_remove", "l_clear",
         "ts_set", "ts_set_time", "ts_now", "ts_clear", "drop"}
HasMoment(e) == /\ e.op \in Lins
                /\ e.op \in {"inc", "add", "time_end"} => S.met[S.hdl[e.h]].kind = "gauge"
Effects(e) ==       \* the possible states after it
  LET m == P!M(S, e.h)
  IN CASE e.op = "inc" -> {P!DoIncrement(S, e.h, e.n)}
       [] e.op = "dec" -> {P!DoAdd(S, e.h, N!Whole(-1))}
       [] e.op = "add" -> {P!DoAdd(S, e.h, F(e.v))}
       [] e.op = "sub" -> {P!DoAdd(S, e.h, N!Neg(F(e.v)))}
       [] e.op = "set" -> {P!DoSet(S, e.h, F(e.v))}
       [] e.op = "set_now" -> {P!DoSet(S, e.h, N!TNum(S.wall))}
       [] e.op = "track_begin" -> {P!DoAdd(S, e.h, N!One)}
       [] e.op = "track_end" -> {P!DoAdd(S, e.h, N!Whole(-1))}
       [] e.op = "time_end" -> {P!DoSet(S, e.h, N!TNum(d)) : d \in ToSet(e.els)}
       [] e.op = "l_insert" -> {IF P!LabelOk(m.kind, StrCp(e.a)) THEN P!DoLabels(S, e.h, P!LInsert(m.labels, e.a, e.v)) ELSE S}
       [] e.op = "l_remove" -> {P!DoLabels(S, e.h, P!LRemove(m.labels, e.a))}
       [] e.op = "l_clear" -> {P!DoLabels(S, e.h, {})}
       [] e.op \in {"ts_set", "ts_set_time"} -> {P!DoTs(S, e.h, P!TsNorm(e.v))}
       [] e.op = "ts_now" -> {P!DoTs(S, e.h, P!TsOfWall(S.wall))}
       [] e.op = "ts_clear" -> {P!DoTs(S, e.h, P!NoTs)}
       [] e.op = "drop" -> {P!DoDrop(S, e.h)}

Readers == {"read", "l_iter", "l_get", "l_len", "ts_get", "gather", "display_labels", "hold_iter"}
\* Everybody who is reading remembers the states there were since.
Snap(T) == [met |-> T.met]
Remember(T) == [th \in Running |-> IF pend[th].e.op \in Readers THEN [pend[th] EXCEPT !.snaps = @ \cup {Snap(T)}] ELSE pend[th]]

-----------------------------------------------------------------------------
(* Contributions.                                                                                                 *)
Contribution(e, m) ==   \* the possible <<amount, time>> of this call, if it is one
  IF e.op \notin {"inc", "add", "add_u64", "observe", "time_end"} \/ ~Commutes(m) THEN {}
  ELSE LET xs == CASE e.op = "inc" -> {N!Whole(e.n)}
                   [] e.op = "time_end" -> {N!TNum(d) : d \in ToSet(e.els)}
                   [] OTHER -> {F(e.v)}
           ts == IF m.kind = "summary" THEN ToSet(e.clocks) ELSE {S.mono}
       IN {<<x, t>> \in xs \X ts : CASE m.kind = "counter" -> P!CounterAccepts(x)
                                      [] m.kind = "histogram" -> x.c # "nan"
                                      [] OTHER -> TRUE}
\* A field of metrics ms of one kind: which contributions it is about, and what it is for a set T of them.
Bound(c) == LET m == S.met[c.m] IN m.bounds[P!BucketOf(m.bounds, c.x)]
About(c, i) == /\ c.m \in i.ms
               /\ CASE i.f = "le" -> N!Le(Bound(c), i.ub)
                    [] i.f = "b" -> N!Same(Bound(c), i.ub)
                    [] OTHER -> TRUE
FieldId(i) == <<IF i.f = "Q" THEN "q" ELSE i.f, i.ub.r>>
SumOver(ms, f(_)) == FoldFunction(LAMBDA x, y : x + y, 0, [m \in ms |-> f(m)])
BucketSum(m, ok(_)) == SumOver({k \in DOMAIN m.cnt : ok(m.bounds[k])}, LAMBDA k : m.cnt[k])
\* A sum put together from those of metrics ms and contributions T.
SumAll(ms, f(_), T) ==
  LET p == FoldSet(LAMBDA m, a : N!Plus(a, f(m)), N!NoSum, ms)
  IN FoldSet(LAMBDA c, a : N!Plus(a, IF S.met[c.m].kind = "counter" THEN N!CountTerm(c.x) ELSE N!Term(c.x)), p, T)
Total(i, T) ==
  CASE i.f = "n" -> SumOver(i.ms, LAMBDA m : IF S.met[m].kind = "histogram" THEN P!SumNat(S.met[m].cnt) ELSE S.met[m].n) + Cardinality(T)
    [] i.f = "le" -> SumOver(i.ms, LAMBDA m : BucketSum(S.met[m], LAMBDA b : N!Le(b, i.ub))) + Cardinality(T)
    [] i.f = "b" -> SumOver(i.ms, LAMBDA m : BucketSum(S.met[m], LAMBDA b : N!Same(b, i.ub))) + Cardinality(T)
InWindow(m, t, now) == P!TLe(P!TSub(now, t), S.met[m].win)
\* The samples of metric m at the moment now.
Samples(i, T, now) ==
  FlattenSeq([k \in DOMAIN i.order |->
     LET m == i.order[k]
         old == SelectSeq(S.met[m].samples, LAMBDA s : InWindow(m, s.t, now[m]))
         new == SetToSeq({c \in T : c.m = m /\ InWindow(m, c.t, now[m])})
     IN P!Values(old) \o [n \in DOMAIN new |-> [x |-> new[n].x, k |-> 1]]])
Agrees(i, T, p) ==
  CASE i.f = "v" -> N!SumIs(SumAll(i.ms, LAMBDA m : S.met[m].v, T), Cardinality(i.ms), i.obs)
    [] i.f \in {"q", "Q"} -> \E now \in [i.ms -> ToSet(p.e.clocks)] :
                       P!QuantilesOk(i.obs, FlattenSeq([k \in DOMAIN i.order |-> S.met[i.order[k]].qs]), Samples(i, T, now), i.f = "Q")
    [] OTHER -> Total(i, T) = i.obs
Sees(p, i) ==     \* the sets of contributions the reader p may have seen in item i
  LET all == {c \in con : About(c, i)}
      must == {c \in all : c.j \in p.done0 \/ <<c.j, FieldId(i)>> \in p.ap0}
  IN {must \cup Y : Y \in SUBSET (all \ must)}
NoNum == N!Zero
Item(ms, f, ub, obs) == [ms |-> ToSet(ms), order |-> ms, f |-> f, ub |-> ub, obs |-> obs]

-----------------------------------------------------------------------------
(* What a reader reports, as items.                                                                                *)
Met(e) == S.hdl[e.h]
Ascends(seq) == \A k \in 1..(Len(seq) - 1) : seq[k][2] <= seq[k + 1][2]
CumItems(ms, seq) == [k \in DOMAIN seq |-> Item(ms, "le", F(seq[k][1]), seq[k][2])]
ReadItems(e) ==
  LET m == <<Met(e)>>
      r == e.ret
  IN CASE e.what = "value" -> <<Item(m, "v", NoNum, F(r.v))>>
       [] e.what = "sum" -> <<Item(m, "v", NoNum, F(r.v))>>
       [] e.what = "count" -> <<Item(m, "n", NoNum, r.n)>>
       [] e.what = "buckets" -> [k \in DOMAIN r.l |-> Item(m, "b", F(r.l[k][1]), r.l[k][2])]
       [] e.what = "cum" -> CumItems(m, r.l)
       [] e.what = "quant" -> <<Item(m, "q", NoNum, IF r.t = "none" THEN <<>> ELSE FPairs(r.l))>>
SeriesItems(f, s, ms) ==
  CASE f.kind = "counter" -> <<Item(ms, "v", NoNum, F(s.v))>>
    [] f.kind = "gauge" -> <<>>
    [] f.kind = "histogram" -> <<Item(ms, "v", NoNum, F(s.v)), Item(ms, "n", NoNum, s.count)>> \o CumItems(ms, s.cum)
    [] f.kind = "summary" -> <<Item(ms, "v", NoNum, F(s.v)), Item(ms, "n", NoNum, s.count), Item(ms, "Q", NoNum, FPairs(s.quant))>>

\* A value between call and return.
Held(p, ok(_)) == \E s \in p.snaps : ok(s)
ReadOk(p) ==        \* the part of a read that is not items
  LET e == p.e
      r == e.ret
      m == Met(e)
  IN CASE e.op = "read" ->
            (CASE e.what = "value" -> r.t = "f" /\ (S.met[m].kind = "gauge" => Held(p, LAMBDA s : Is(s.met[m], F(r.v))))
               [] e.what = "sum" -> r.t = "f"
               [] e.what = "count" -> r.t = "i"
               [] e.what \in {"buckets", "cum"} -> r.t = "fc" /\ BoundsOk(r.l, S.met[m].bounds) /\ (e.what = "cum" => Ascends(r.l))
               [] e.what = "quant" -> r.t \in {"fp", "none"})
       [] e.op = "l_iter" -> r.t = "labels" /\ Held(p, LAMBDA s : ListingOk(r.l, s.met[m].labels))
       [] e.op = "hold_iter" -> r.t = "labels" /\ Held(p, LAMBDA s : ListingOk(r.l, s.met[m].labels))
       [] e.op = "l_get" -> r.t = "labels" /\ Held(p, LAMBDA s : Len(r.l) = Cardinality(LabelSet(r.l)) /\ LabelSet(r.l) = {q \in s.met[m].labels : q[1] = e.a})
       [] e.op = "l_len" -> r.t = "len" /\ Held(p, LAMBDA s : r.n = Cardinality(s.met[m].labels)) /\ Held(p, LAMBDA s : r.e = (s.met[m].labels = {}))
       [] e.op = "ts_get" -> r.t = "ts" /\ Held(p, LAMBDA s : TsOk(r.a, s.met[m].ts)) /\ Held(p, LAMBDA s : TsOk(r.b, s.met[m].ts))
       [] e.op = "display_labels" -> TRUE
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Gather.                                                                                                        *)
\* Is metric m alive through all of p?  A drop in progress may have happened.
Dropping == {pend[th].e.h : th \in {t \in Running : pend[t].e.op = "drop"}}
SurelyAlive(m) == \E h \in DOMAIN S.hdl \ Dropping : S.hdl[h] = m
GatherMay(p) == S.gat[p.e.g] \o SetToSeq({r.c : r \in {x \in regs : x.g = p.e.g}})
GatherMust(p) == SelectSeq(p.gat0, LAMBDA c : c.t = "script" \/ SurelyAlive(c.m))
IncludedScripts(p) == {c \in ToSet(GatherMay(p)) : c.t = "script" /\ c.c \in ToSet(p.e.ret.calls)}
\* The sets of collectors that may have been asked.
Included(p) ==
  LET may == ToSet(GatherMay(p))
      must == ToSet(GatherMust(p))
      scripts == IncludedScripts(p)
      metrics == {c \in may : c.t = "metric"}
  IN IF \/ ~({c \in must : c.t = "script"} \subseteq scripts)
        \/ Len(p.e.ret.calls) # Cardinality(scripts)
       THEN {}
       ELSE {scripts \cup {c \in must : c.t = "metric"} \cup Y : Y \in SUBSET (metrics \ must)}
MetricsOf(I) == FlattenSeq([k \in DOMAIN SetToSeq(I) |->
                  LET c == SetToSeq(I)[k] IN IF c.t = "metric" THEN <<c.m>> ELSE IF P!Ends(c) THEN <<>> ELSE c.steps[1]])
LabelSets(p, m) == {s.met[m].labels : s \in {x \in p.snaps : m \in DOMAIN x.met}}
Places(fams) == UNION {{<<a, b>> : b \in DOMAIN fams[a].series} : a \in DOMAIN fams}
\* How the metrics may be distributed over the series shown.
Assignments(p, mem, fams) ==
  {z \in [ToSet(mem) -> Places(fams)] :
     /\ \A m \in DOMAIN z : LET f == fams[z[m][1]] IN S.met[m].full = StrCp(f.full) /\ S.met[m].kind = f.kind
     /\ \A pl \in Places(fams) :
          LET ms == {m \in DOMAIN z : z[m] = pl}
              shown == LabelSet(fams[pl[1]].series[pl[2]].labels)
          IN /\ ms # {}
             /\ shown \in UNION {LabelSets(p, m) : m \in ms}
             /\ (\A m \in ms : Cardinality(LabelSets(p, m)) = 1) => \A m \in ms : LabelSets(p, m) = {shown}
     /\ \A m, n \in DOMAIN z :
          (S.met[m].full = S.met[n].full /\ S.met[m].kind = S.met[n].kind /\ Cardinality(LabelSets(p, m)) = 1 /\ LabelSets(p, m) = LabelSets(p, n))
             => z[m] = z[n]}
GaugeOk(p, ms, x) == \E z \in [ms -> p.snaps] : (IF Cardinality(ms) = 1 THEN \A m \in ms : Is(z[m].met[m], x) ELSE N!SumIs(SumAll(ms, LAMBDA m : P!Settled(z[m].met[m]), {}), Cardinality(ms), x))
TsSeriesOk(p, ms, t) == \E z \in [ms -> p.snaps] : TsOk(t, P!TsMax({z[m].met[m].ts : m \in ms}))
NewBorn(p, ms) == \A m \in ms : \E s \in p.snaps : m \in DOMAIN s.met
OnlyWith(p, ms) == {s \in p.snaps : ms \subseteq DOMAIN s.met}
GatherItems(p, z, fams) ==
  FlattenSeq([a \in DOMAIN fams |->
    FlattenSeq([b \in DOMAIN fams[a].series |->
      SeriesItems(fams[a], fams[a].series[b], SetToSeq({m \in DOMAIN z : z[m] = <<a, b>>}))])])
GatherOk(p, z, fams) ==
  \A pl \in Places(fams) :
    LET f == fams[pl[1]]
        s == f.series[pl[2]]
        ms == {m \in DOMAIN z : z[m] = pl}
        q == [p EXCEPT !.snaps = OnlyWith(p, ms)]
    IN /\ f.kind = "gauge" => GaugeOk(q, ms, F(s.v))
       /\ TsSeriesOk(q, ms, s.ts)
       /\ f.kind = "histogram" => Ascends(s.cum) /\ BoundsOk(s.cum, P!MergedBounds([k \in DOMAIN SetToSeq(ms) |-> S.met[SetToSeq(ms)[k]]]))
NextOf(c, I) == IF c.t = "script" /\ c \in I THEN (IF P!Ends(c) THEN <<>> ELSE <<P!NextStep(c)>>) ELSE <<c>>
\* Collectors that were asked are with the gatherer from then on, and go to their next answer.
AfterGather(p, I) ==
  LET g == p.e.g
      late == {r \in regs : r.g = g /\ r.c \in I}
      all == S.gat[g] \o SetToSeq({r.c : r \in late})
  IN /\ regs' = regs \ late
     /\ S' = [S EXCEPT !.gat[g] = FlattenSeq([k \in DOMAIN all |-> NextOf(all[k], I)])]

-----------------------------------------------------------------------------
(* Steps.                                                                                                         *)
NextIsRet == l <= Len(Ev) /\ Ev[l].ev = "ret"
New(e) == [e |-> e, lin |-> FALSE, open |-> FALSE, todo |-> <<>>, done0 |-> done, ap0 |-> ap, snaps |-> IF e.op \in Readers THEN {Snap(S)} ELSE {},
           gat0 |-> IF e.op = "gather" THEN S.gat[e.g] ELSE <<>>]

Registers(e) == CASE e.op = "fin" -> [k \in DOMAIN S.bld[e.b].regs |-> S.bld[e.b].regs[k]]
                  [] e.op \in {"register", "register_script"} -> <<S.reg[e.r]>>
                  [] OTHER -> <<>>
BuiltBounds(e) == IF e.ret.t = "desc" THEN [i \in DOMAIN e.ret.buckets |-> F(e.ret.buckets[i][1])] ELSE <<>>
Collector(e) == CASE e.op = "register" -> P!MetricCollector(S.hdl[e.h])
                  [] e.op = "register_script" -> P!ScriptCollector(S, e.c, e.script, e.acts)
                  [] e.op = "fin" -> P!MetricCollector(1 + Cardinality(DOMAIN S.met))
Call ==
  /\ l <= Len(Ev) /\ E.ev = "call"
  /\ E.th \notin Running
  /\ LET e == E
         m == 1 + Cardinality(DOMAIN S.met)
         S1 == CASE e.op = "fin" -> [S EXCEPT !.met = P!Put(@, m, P!Built(S.bld[e.b], BuiltBounds(e))), !.hdl = P!Put(@, e.h, m)]
                 [] e.op = "clone" -> P!DoClone(S, e.h, e.to)
                 [] OTHER -> S
         rs == Registers(e)
     IN /\ S' = S1
        /\ pend' = P!Put(IF S1 = S THEN pend ELSE Remember(S1), e.th, New(e))
        /\ regs' = regs \cup {[j |-> l, k |-> k, g |-> rs[k], c |-> Collector(e)] : k \in DOMAIN rs}
        /\ LET cs == IF e.op \in {"inc", "add", "add_u64", "observe", "time_end"} THEN Contribution(e, P!M(S, e.h)) ELSE {}
           IN IF cs = {} THEN con' = con ELSE \E c \in cs : con' = con \cup {[j |-> l, m |-> Met(e), x |-> c[1], t |-> c[2]]}
  /\ l' = l + 1
  /\ UNCHANGED <<tr, perm, ap, done>>

Lin(th) ==
  /\ NextIsRet
  /\ ~pend[th].lin
  /\ HasMoment(pend[th].e)
  /\ \E T \in Effects(pend[th].e) :
       /\ S' = T
       /\ pend' = [Remember(T) EXCEPT ![th].lin = TRUE]
  /\ UNCHANGED <<tr, l, perm, con, ap, done, regs>>

\* A reader about to return looks at what it reports.
Open(th) ==
  LET p == pend[th]
      e == p.e
  IN /\ NextIsRet /\ E.th = th
     /\ ~p.open /\ e.op \in Readers
     /\ IF e.op = "gather"
          THEN /\ e.ret.t = "res"
               /\ \E I \in Included(p) :
                    LET mem == MetricsOf(I)
                    IN /\ Cardinality(ToSet(mem)) = Len(mem)
                       /\ {<<StrCp(e.ret.fams[a].full), e.ret.fams[a].kind>> : a \in DOMAIN e.ret.fams} = {<<S.met[m].full, S.met[m].kind>> : m \in ToSet(mem)}
                       /\ Len(e.ret.fams) = Cardinality({<<S.met[m].full, S.met[m].kind>> : m \in ToSet(mem)})
                       /\ \E z \in Assignments(p, mem, e.ret.fams) :
                            /\ Yes(GatherOk(p, z, e.ret.fams))
                            /\ AfterGather(p, I)
                            /\ pend' = [pend EXCEPT ![th].open = TRUE, ![th].todo = GatherItems(p, z, e.ret.fams)]
          ELSE /\ Yes(ReadOk(p))
               /\ pend' = [pend EXCEPT ![th].open = TRUE,
                                       ![th].todo = IF e.op = "read" /\ Commutes(S.met[Met(e)]) THEN ReadItems(e) ELSE <<>>]
               /\ UNCHANGED <<S, regs>>
     /\ UNCHANGED <<tr, l, perm, con, ap, done>>
See(th) ==
  LET p == pend[th]
      i == Head(p.todo)
  IN /\ p.open /\ p.todo # <<>>
     /\ \E T \in Sees(p, i) :
          /\ Yes(Agrees(i, T, p))
          /\ ap' = ap \cup {<<c.j, FieldId(i)>> : c \in T}
     /\ pend' = [pend EXCEPT ![th].todo = Tail(@)]
     /\ UNCHANGED <<tr, l, S, perm, con, done, regs>>

RetOk(e) ==
  LET r == e.ret
      ok == r.t = "ok"
  IN CASE e.op = "fin" -> r.t = "desc" /\ BoundsBuiltOk(S.bld[e.b], BuiltBounds(e))
       [] e.op = "add" -> IF S.met[Met(e)].kind = "counter" /\ ~P!CounterAccepts(F(e.v)) THEN r.t = "err" /\ r.k = "InvalidInput" ELSE ok
       [] e.op = "observe" -> IF S.met[Met(e)].kind = "histogram" /\ F(e.v).c = "nan" THEN r.t = "panic" ELSE ok
       [] e.op \in {"track_end", "time_end"} -> IF e.panic THEN r.t = "panic" ELSE r.t = "tok" /\ r.n = e.tok
       [] e.op = "l_insert" -> IF P!LabelOk(S.met[Met(e)].kind, StrCp(e.a)) THEN ok ELSE r.t = "err" /\ r.k = "InvalidInput"
       [] e.op = "held_read" -> r.t = "labels" /\ Pairs(r.l) = S.held[e.it].items
       [] e.op \in Readers -> TRUE
       [] e.op = "drop" -> ok
       [] OTHER -> ok
Ret ==
  /\ NextIsRet
  /\ LET th == E.th
         p == pend[th]
         e == p.e
         mine == {r \in regs : r.j = E.j}
     IN /\ HasMoment(e) => p.lin
        /\ e.op \in Readers => p.open /\ p.todo = <<>>
        /\ Yes(e.op = "drop" \/ RetOk(e))
        /\ e.op = "drop" => e.ret.t = "ok"
        /\ done' = done \cup {E.j}
        /\ regs' = regs \ mine
        /\ LET S1 == FoldSet(LAMBDA r, s : P!Feed(s, r.g, r.c), S, mine)
           IN /\ S' = IF e.op = "hold_iter" THEN P!DoHold(S1, e.it, e.h, Pairs(e.ret.l), TRUE)
                      ELSE IF e.op = "held_drop" THEN P!DoRelease(S1, e.it)
                      ELSE S1
              /\ pend' = [t \in Running \ {th} |-> pend[t]]
  /\ l' = l + 1
  /\ UNCHANGED <<tr, perm, con, ap>>

\* All threads are done: the metrics have received all contributions.
Receive(s, c) ==
  [s EXCEPT !.met[c.m] = CASE @.kind = "counter" -> P!Above(P!AddTo(@, c.x), c.x)
                           [] @.kind = "histogram" -> P!ObserveH(@, c.x)
                           [] @.kind = "summary" -> P!ObserveS(@, c.x, c.t)]
Join ==
  /\ l <= Len(Ev) /\ E.ev = "join"
  /\ Running = {} /\ regs = {}
  /\ S' = FoldSet(LAMBDA c, s : Receive(s, c), S, con)
  /\ l' = l + 1
  /\ con' = {} /\ ap' = {} /\ done' = {}
  /\ UNCHANGED <<tr, perm, pend, regs>>

Sequential ==
  /\ l <= Len(Ev) /\ E.ev = "seq"
  /\ Step
  /\ pend' = Remember(S')
  /\ l' = l + 1
  /\ UNCHANGED <<tr, con, ap, done, regs>>

CInit == Init /\ pend = <<>> /\ con = {} /\ ap = {} /\ done = {} /\ regs = {}
CNext == Sequential \/ Call \/ Ret \/ Join \/ \E th \in Running : Lin(th) \/ Open(th) \/ See(th)
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
