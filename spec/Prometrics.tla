---------------------------- MODULE Prometrics ----------------------------
(* The sequential specification of sile/prometrics: what each public operation does to the state of the system   *)
(* and what it may return.  The whole state is one record S (see Init); an operation Op(args) is a pair of        *)
(* operators: DoOp(S, args), the state after it, and (where it returns something) a relation on the answer.       *)
(*                                                                                                                *)
(* Strings are indices into a table (0 = absent), so that the specification can look at their characters: Cp(i)   *)
(* is the sequence of code points of string i and Ord(i) its rank in byte order.                                  *)
EXTENDS Num, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

CONSTANTS Cp(_), Ord(_)

Kinds == {"counter", "gauge", "histogram", "summary"}
DEFAULT == -1                             \* the default gatherer and the default registry

-----------------------------------------------------------------------------
(* Names (C13)                                                                                                    *)
IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsDigit(c) == c >= 48 /\ c <= 57
IsNameStart(c) == IsLower(c) \/ IsUpper(c) \/ c = 95 \/ c = 58        \* a letter, _ or :
IsNameChar(c) == IsNameStart(c) \/ IsDigit(c)
IsLabelStart(c) == IsLower(c) \/ IsUpper(c) \/ c = 95
IsLabelChar(c) == IsLabelStart(c) \/ IsDigit(c)

MetricNameOk(w) == w # <<>> /\ IsNameStart(w[1]) /\ \A i \in DOMAIN w : IsNameChar(w[i])
LabelNameOk(w) == /\ w # <<>>
                  /\ IsLabelStart(w[1])
                  /\ \A i \in DOMAIN w : IsLabelChar(w[i])
                  /\ ~(Len(w) >= 2 /\ w[1] = 95 /\ w[2] = 95)
Reserved(kind) == CASE kind = "histogram" -> <<108, 101>>                                   \* le
                    [] kind = "summary" -> <<113, 117, 97, 110, 116, 105, 108, 101>>        \* quantile
                    [] OTHER -> <<>>
LabelOk(kind, w) == LabelNameOk(w) /\ w # Reserved(kind)

FullName(ns, sub, name) == (IF ns = 0 THEN <<>> ELSE Append(Cp(ns), 95))
                             \o (IF sub = 0 THEN <<>> ELSE Append(Cp(sub), 95)) \o Cp(name)

-----------------------------------------------------------------------------
(* Labels (C12): a set of <<name, value>> pairs, at most one per name.                                            *)
LInsert(L, a, v) == {p \in L : p[1] # a} \cup {<<a, v>>}
LRemove(L, a) == {p \in L : p[1] # a}
\* A listing of a label map: every pair once, in the byte order of the names.
LListing(seq, L) == /\ Len(seq) = Cardinality(L)
                    /\ ToSet(seq) = L
                    /\ \A i \in 1..(Len(seq) - 1) : Ord(seq[i][1]) < Ord(seq[i + 1][1])

-----------------------------------------------------------------------------
(* Timestamps (C15): [k, neg, hi, lo, ms]; k = 0: none; the milliseconds (hi*10^9 + lo)*1000 + ms, negated if neg. *)
NoTs == [k |-> 0, neg |-> FALSE, hi |-> 0, lo |-> 0, ms |-> 0]
TsNorm(t) == IF t.hi = 0 /\ t.lo = 0 /\ t.ms = 0 THEN [t EXCEPT !.neg = FALSE] ELSE t
TsMagLt(a, b) == a.hi < b.hi \/ (a.hi = b.hi /\ (a.lo < b.lo \/ (a.lo = b.lo /\ a.ms < b.ms)))
TsLt(a, b) == CASE b.k = 0 -> FALSE
                [] a.k = 0 -> TRUE
                [] a.neg /\ b.neg -> TsMagLt(b, a)
                [] a.neg # b.neg -> a.neg
                [] OTHER -> TsMagLt(a, b)
TsMax(T) == CHOOSE t \in T : \A u \in T : ~TsLt(t, u)
\* The instant w = [s, n] (seconds and nanoseconds since the epoch, s may be negative) in whole milliseconds,
\* truncated toward zero; |s| < 10^9 * 2^31.
TsOfWall(w) == LET a == IF w.s < 0 THEN TSub([s |-> 0, n |-> 0], w) ELSE w
               IN TsNorm([k |-> 1, neg |-> w.s < 0, hi |-> a.s \div 1000000000, lo |-> a.s % 1000000000,
                          ms |-> a.n \div 1000000])

-----------------------------------------------------------------------------
(* Histogram buckets (C04, C10)                                                                                   *)
\* Of neighbours with the same value, the first.
Distinct(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Same(acc[Len(acc)], x) THEN acc ELSE Append(acc, x), <<>>, s)
Ascending(s) == Distinct(SortSeq(s, Lt))
\* The bucket of an observation: the one with the smallest upper bound that is not below the value.
BucketOf(bounds, v) == CHOOSE i \in DOMAIN bounds : Le(v, bounds[i]) /\ \A j \in 1..(i - 1) : ~Le(v, bounds[j])
SumNat(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Cumul(cnt, i) == SumNat(SubSeq(cnt, 1, i))

\* The number of observations of histograms hs in buckets whose upper bound is at most ub, given the <<upper bound,
\* count>> of all their buckets that are not empty.
Filled(hs) == FlattenSeq([j \in DOMAIN hs |-> SelectSeq([i \in DOMAIN hs[j].cnt |-> <<hs[j].bounds[i], hs[j].cnt[i]>>],
                                                       LAMBDA bc : bc[2] # 0)])
CountAt(filled, ub) == FoldLeft(LAMBDA a, bc : IF Le(bc[1], ub) THEN a + bc[2] ELSE a, 0, filled)
TotalCount(hs) == SumNat([j \in DOMAIN hs |-> SumNat(hs[j].cnt)])
MergedBounds(hs) == Ascending(FlattenSeq([j \in DOMAIN hs |-> hs[j].bounds]))

-----------------------------------------------------------------------------
(* Summaries (C06, C07): samples are [t, x, k], t the monotonic time of k observations of x.                       *)
InWindow(smp, win, now) == TLe(TSub(now, smp.t), win)
Current(m, now) == SelectSeq(m.samples, LAMBDA s : InWindow(s, m.win, now))
Values(samples) == [i \in DOMAIN samples |-> [x |-> samples[i].x, k |-> samples[i].k]]
NonNaN(xs) == SelectSeq(xs, LAMBDA s : s.x.c # "nan")
HowMany(xs, T(_)) == FoldLeft(LAMBDA a, s : IF T(s.x) THEN a + s.k ELSE a, 0, xs)
MinI(a, b) == IF a < b THEN a ELSE b
\* v is the value at the zero-based position i of xs in ascending order.
AtPosition(xs, i, v) ==
  \E c \in {xs[k].x : k \in DOMAIN xs} :
    /\ SameAs(c, v)
    /\ HowMany(xs, LAMBDA x : Lt(x, c)) <= i
    /\ i < HowMany(xs, LAMBDA x : Le(x, c))
\* The position is min(n-1, floor(q*n)), for 0 <= q <= 1; the product may have been rounded to binary64.
QuantileOk(q, v, xs) == \E n \in {HowMany(xs, LAMBDA x : TRUE)} : \E i \in FFloorMul(q, n) : AtPosition(xs, MinI(n - 1, i), v)
\* obs is the reported sequence of <<q, v>>.  strict: each quantile once (a single summary may list one as often as it
\* was given, an aggregate may not).
QuantilesOk(obs, qs, xs, strict) ==
  \E ys \in {NonNaN(xs)} :                              \* (singletons: evaluated once)
    LET exp == Ascending(qs)
        all == [i \in DOMAIN obs |-> obs[i][1]]
        got == IF strict THEN all ELSE Distinct(all)
    IN IF Len(ys) = 0 THEN obs = <<>>
       ELSE /\ Len(got) = Len(exp)
            /\ \A i \in DOMAIN exp : Same(got[i], exp[i])
            /\ \A i \in DOMAIN obs : QuantileOk(obs[i][1], obs[i][2], ys)

-----------------------------------------------------------------------------
(* The state.                                                                                                     *)
(*   gat : gatherer -> sequence of collectors, in order of registration; dropped gatherers are not in the domain  *)
(*   reg : registry -> gatherer it feeds                                                                          *)
(*   mb  : common builders;  bld : builders                                                                       *)
(*   met : metric -> record;  hdl : handle -> metric;  res : kept gather result -> sets of metrics it holds       *)
(*   stk : closures in progress, innermost last;  held : label references held by the user                        *)
(*   mono, wall : the clocks                                                                                      *)
Empty == <<>>
Init0 == [gat |-> (DEFAULT :> <<>>), reg |-> (DEFAULT :> DEFAULT), mb |-> Empty, bld |-> Empty, met |-> Empty, hdl |-> Empty,
          res |-> Empty, stk |-> <<>>, held |-> Empty, mono |-> [s |-> 0, n |-> 0], wall |-> [s |-> 0, n |-> 0]]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

M(S, h) == S.met[S.hdl[h]]                                        \* the metric behind handle h
SetM(S, h, m) == [S EXCEPT !.met[S.hdl[h]] = m]

\* A metric is alive while a handle, a kept result, a running closure, a live collector's pending answer or a held
\* label reference still has it.
InSteps(c, m) == \E j \in DOMAIN c.steps : \E x \in DOMAIN c.steps[j] : c.steps[j][x] = m
InCollector(c, m) == InSteps(c, m) \/ \E j \in DOMAIN c.acts : \E x \in DOMAIN c.acts[j] : InSteps(c.acts[j][x].c, m)
InScript(S, m) == \E g \in DOMAIN S.gat : \E i \in DOMAIN S.gat[g] : InCollector(S.gat[g][i], m)
Alive(S, m) == \/ \E h \in DOMAIN S.hdl : S.hdl[h] = m
               \/ \E k \in DOMAIN S.res : m \in S.res[k]
               \/ \E i \in DOMAIN S.stk : S.stk[i].m = m
               \/ \E i \in DOMAIN S.held : S.held[i].m = m
               \/ InScript(S, m)

---- (* Gatherers and registries (C08) *)
DoGatherer(S, g) == [S EXCEPT !.gat = Put(@, g, <<>>)]
DoDropGatherer(S, g) == [S EXCEPT !.gat = Del(@, g)]
\* The default gatherer is replaced by a new one: what was its registry so far feeds nothing any more.
Orphan(g) == IF g = DEFAULT THEN 0 ELSE g
OrphanActs(c) == [c EXCEPT !.acts = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> [@[i][j] EXCEPT !.g = Orphan(@)]]]]
DoResetDefault(S) ==
  [S EXCEPT !.gat = [g \in DOMAIN @ |-> IF g = DEFAULT THEN <<>> ELSE [i \in DOMAIN @[g] |-> OrphanActs(@[g][i])]],
            !.reg = [r \in DOMAIN @ |-> IF r = DEFAULT THEN @[r] ELSE Orphan(@[r])],
            !.mb = [b \in DOMAIN @ |-> [@[b] EXCEPT !.regs = [i \in DOMAIN @ |-> Orphan(@[i])]]],
            !.bld = [b \in DOMAIN @ |-> [@[b] EXCEPT !.regs = [i \in DOMAIN @ |-> Orphan(@[i])]]]]
DoRegistry(S, r, g) == [S EXCEPT !.reg = Put(@, r, g)]
DoCloneRegistry(S, r, from) == [S EXCEPT !.reg = Put(@, r, S.reg[from])]
Feed(S, g, c) == IF g \in DOMAIN S.gat THEN [S EXCEPT !.gat[g] = Append(@, c)] ELSE S
MetricCollector(m) == [t |-> "metric", m |-> m, c |-> 0, steps |-> <<>>, acts |-> <<>>]
DoRegister(S, r, h) == Feed(S, S.reg[r], MetricCollector(S.hdl[h]))
\* A collector of the user: answers the metrics of one step per gather, then that it has no more.  A step <<0>> also
\* stands for "no more", and <<-1>> for a panic.  At its i-th call it also registers the collectors of acts[i]: those of metrics (c = 0), and
\* others of the user, which register nothing.
SimpleCollector(S, c, script) ==
  [t |-> "script", m |-> 0, c |-> c, acts |-> <<>>,
   steps |-> [i \in DOMAIN script |-> [j \in DOMAIN script[i] |-> IF script[i][j] <= 0 THEN script[i][j] ELSE S.hdl[script[i][j]]]]]
ScriptCollector(S, c, script, acts) ==
  [SimpleCollector(S, c, script) EXCEPT !.acts =
     [i \in DOMAIN acts |-> [j \in DOMAIN acts[i] |->
        LET a == acts[i][j]
        IN [g |-> S.reg[a.r], c |-> IF a.c = 0 THEN MetricCollector(S.hdl[a.h]) ELSE SimpleCollector(S, a.c, a.script)]]]]
DoRegisterScript(S, r, c, script, acts) == Feed(S, S.reg[r], ScriptCollector(S, c, script, acts))

---- (* Common builders (C14) *)
NewMb(regs) == [ns |-> 0, sub |-> 0, labels |-> {}, regs |-> regs]
DoMbNew(S, b, r) == [S EXCEPT !.mb = Put(@, b, NewMb(IF r = 0 THEN <<>> ELSE <<S.reg[r]>>))]     \* r = 0: without registry
DoMbClone(S, b, from) == [S EXCEPT !.mb = Put(@, b, S.mb[from])]
DoMbSet(S, b, what, a, v, r) ==
  LET B == S.mb[b]
  IN [S EXCEPT !.mb[b] = CASE what = "namespace" -> [B EXCEPT !.ns = v]
                           [] what = "subsystem" -> [B EXCEPT !.sub = v]
                           [] what = "label" -> [B EXCEPT !.labels = LInsert(@, a, v)]
                           [] what = "registry" -> [B EXCEPT !.regs = Append(@, S.reg[r])]
                           [] what = "set_registry" -> [B EXCEPT !.regs = <<S.reg[r]>>]]

---- (* Builders (C13, C14, C04) *)
NewBuilder(kind, name, win, mb, bounds) ==
  [kind |-> kind, ns |-> mb.ns, sub |-> mb.sub, name |-> name, help |-> 0, labels |-> mb.labels, regs |-> mb.regs,
   init |-> Zero, bounds |-> bounds, qs |-> <<>>, win |-> win]
\* A bound is [x, k, u]: the number x, given (k = 0), or computed by the implementation, to within k*2^u.
Given(xs) == [i \in DOMAIN xs |-> [x |-> xs[i], k |-> 0, u |-> 0]]
Bigger(a, b) == IF FMagLt(a, b) THEN b ELSE a
Computed(start, term, exact, k) ==      \* start + term, given both as binary64 and exactly
  LET r == FAdd(start, term)
  IN IF r.c # "fin" THEN [x |-> r, k |-> 0, u |-> 0]
     ELSE [x |-> FRound(FSum(start, exact)), k |-> k, u |-> FUlp(Bigger(start, Bigger(term, r)))]
Linear(start, width, n) ==
  [i \in 1..n |-> LET t == FMul(width, Whole(i - 1))
                  IN Computed(start, t, IF t.c = "fin" THEN FProduct(width, Whole(i - 1)) ELSE t, 2)]
RECURSIVE Power(_, _)
Power(x, i) == IF i = 0 THEN One ELSE FMul(Power(x, i - 1), x)
RECURSIVE ExactPower(_, _)
ExactPower(x, i) == IF i = 0 THEN One ELSE FProduct(ExactPower(x, i - 1), x)
Exponential(start, factor, n) ==
  [i \in 1..n |-> LET t == Power(factor, i - 1)
                  IN Computed(start, t, IF t.c = "fin" THEN ExactPower(factor, i - 1) ELSE t, i + 2)]
Matches(b, x) == IF b.k = 0 THEN Same(b.x, x) ELSE FNear(b.x, x, b.k, b.u)
\* May the upper bounds of a histogram built with these be xs?  One bucket each, in ascending order, and one for +Inf.
BoundsFor(bs, xs) ==
  \E ref \in {SortSeq(Append(bs, Given(<<PInf>>)[1]), LAMBDA a, b : Lt(a.x, b.x))} :      \* (evaluated once)
     /\ xs # <<>> /\ Same(xs[Len(xs)], PInf)
     /\ \A i \in 1..(Len(xs) - 1) : Lt(xs[i], xs[i + 1])
     /\ \/ Len(ref) = Len(xs) /\ \A i \in DOMAIN xs : Matches(ref[i], xs[i])
        \/ /\ \A i \in DOMAIN ref : \E j \in DOMAIN xs : Matches(ref[i], xs[j])
           /\ \A j \in DOMAIN xs : \E i \in DOMAIN ref : Matches(ref[i], xs[j])
DoBuilder(S, b, kind, name, win, via, bounds) ==
  [S EXCEPT !.bld = Put(@, b, NewBuilder(kind, name, win, IF via = 0 THEN NewMb(<<>>) ELSE S.mb[via], bounds))]
DoBset(S, b, what, a, v, x, r) ==           \* a, v strings, x a sequence of numbers, r a registry
  LET B == S.bld[b]
  IN [S EXCEPT !.bld[b] = CASE what = "namespace" -> [B EXCEPT !.ns = v]
                            [] what = "subsystem" -> [B EXCEPT !.sub = v]
                            [] what = "help" -> [B EXCEPT !.help = v]
                            [] what = "label" -> [B EXCEPT !.labels = LInsert(@, a, v)]
                            [] what = "registry" -> [B EXCEPT !.regs = Append(@, S.reg[r])]
                            [] what = "default_registry" -> [B EXCEPT !.regs = Append(@, DEFAULT)]
                            [] what = "initial" -> [B EXCEPT !.init = x[1]]
                            [] what = "buckets" -> [B EXCEPT !.bounds = @ \o Given(x)]
                            [] what = "quantile" -> [B EXCEPT !.qs = @ \o x]]

BuildOk(B) ==
  /\ B.ns = 0 \/ MetricNameOk(Cp(B.ns))
  /\ B.sub = 0 \/ MetricNameOk(Cp(B.sub))
  /\ MetricNameOk(Cp(B.name))
  /\ \A p \in B.labels : LabelOk(B.kind, Cp(p[1]))
  /\ B.kind = "histogram" => \A i \in DOMAIN B.bounds : B.bounds[i].x.c # "nan"
  /\ B.kind = "summary" => \A i \in DOMAIN B.qs : B.qs[i].c # "nan" /\ Le(Zero, B.qs[i]) /\ Le(B.qs[i], One)

\* The new metric; xs: the upper bounds it turned out to have, if it is a histogram.
Built(B, xs) ==
  LET bounds == IF B.kind = "histogram" THEN xs ELSE <<>>
  IN [kind |-> B.kind, ns |-> B.ns, sub |-> B.sub, name |-> B.name, full |-> FullName(B.ns, B.sub, B.name), help |-> B.help,
      labels |-> B.labels, gen |-> 0, chg |-> 0, ts |-> NoTs, v |-> IF B.kind = "gauge" THEN SumOf(B.init) ELSE NoSum, low |-> 0,
      win |-> B.win, qs |-> B.qs, samples |-> <<>>, n |-> 0, bounds |-> bounds, cnt |-> [i \in DOMAIN bounds |-> 0]]
RECURSIVE FeedAll(_, _, _)
FeedAll(S, gs, c) == IF gs = <<>> THEN S ELSE FeedAll(Feed(S, Head(gs), c), Tail(gs), c)
\* Building is handing out handle h of a new metric, registered once with each registry of the builder.
DoBuild(S, B, h, xs) ==
                    LET m == 1 + Cardinality(DOMAIN S.met)
                        S1 == [S EXCEPT !.met = Put(@, m, Built(B, xs)), !.hdl = Put(@, h, m)]
                    IN FeedAll(S1, B.regs, MetricCollector(m))

---- (* Handles *)
DoClone(S, h, to) == [S EXCEPT !.hdl = Put(@, to, S.hdl[h])]
DoDrop(S, h) == [S EXCEPT !.hdl = Del(@, h)]

---- (* Values (C01, C02, C04, C06) *)
AddTo(m, x) == [m EXCEPT !.v = CASE m.kind = "counter" -> Plus(@, CountTerm(x))
                                 [] m.kind = "gauge" -> InOrder(@, x)
                                 [] OTHER -> Plus(@, Term(x))]
RECURSIVE AddTimes(_, _, _)
AddTimes(m, x, n) == IF n = 0 THEN m ELSE AddTimes(AddTo(m, x), x, n - 1)
\* A counter accepts everything that is not negative.
CounterAccepts(x) == x.c # "nan" /\ ~Negative(x)
\* Whatever is known about the value: it is not below any accepted amount, nor below any value read (ranks).
MaxI(a, b) == IF a < b THEN b ELSE a
Above(m, x) == IF FFits(x) THEN [m EXCEPT !.low = MaxI(@, x.r)] ELSE m
ObserveH(m, x) == AddTo([m EXCEPT !.cnt[BucketOf(m.bounds, x)] = @ + 1], x)
ObserveS(m, x, now) == AddTo([m EXCEPT !.samples = Append(@, [t |-> now, x |-> x, k |-> 1]), !.n = @ + 1], x)
\* The amount of n calls to increment.
DoAdd(S, h, x) == SetM(S, h, AddTo(M(S, h), x))
DoCount(S, h, x) == SetM(S, h, Above(AddTo(M(S, h), x), x))
DoRead(S, h, x) == SetM(S, h, Above(M(S, h), x))
DoIncrement(S, h, n) == LET m == M(S, h) IN SetM(S, h, IF m.kind = "counter" THEN AddTo(m, Whole(n)) ELSE AddTimes(m, One, n))
SetTo(x) == IF x.id = 0 THEN SumOfTime(x) ELSE SumOf(x)
DoSet(S, h, x) == SetM(S, h, [M(S, h) EXCEPT !.v = SetTo(x)])
DoObserve(S, h, x) == LET m == M(S, h) IN SetM(S, h, IF m.kind = "histogram" THEN ObserveH(m, x) ELSE ObserveS(m, x, S.mono))

\* One after the other.
DoObserveAll(S, h, xs) ==
  LET m == M(S, h)
  IN SetM(S, h, IF m.kind = "histogram" THEN FoldLeft(LAMBDA a, x : ObserveH(a, x), m, xs)
                ELSE FoldLeft(LAMBDA a, x : AddTo(a, x), [m EXCEPT !.samples = @ \o [i \in DOMAIN xs |-> [t |-> S.mono, x |-> xs[i], k |-> 1]], !.n = @ + Len(xs)], xs))

\* n observations of x, a whole number such that nothing is rounded, at the same moment.
DoObserveMany(S, h, x, n) ==
  LET m == M(S, h)
      sum == [m EXCEPT !.v = Plus(@, SumOf(Mul(x, n)))]
  IN SetM(S, h, IF m.kind = "histogram" THEN [sum EXCEPT !.cnt[BucketOf(m.bounds, x)] = @ + n]
                ELSE [sum EXCEPT !.samples = Append(@, [t |-> S.mono, x |-> x, k |-> n]), !.n = @ + n])

---- (* Closures (C03) *)
DoTrackBegin(S, h) == [DoAdd(S, h, One) EXCEPT !.stk = Append(@, [op |-> "track", m |-> S.hdl[h], t |-> S.mono])]
DoTrackEnd(S) == LET c == Last(S.stk)
                 IN [S EXCEPT !.met[c.m] = AddTo(@, Neg(One)), !.stk = Front(@)]
DoTimeBegin(S, h) == [S EXCEPT !.stk = Append(@, [op |-> "time", m |-> S.hdl[h], t |-> S.mono])]
Elapsed(S) == TNum(TSub(S.mono, Last(S.stk).t))
Recorded(m, x, now) == CASE m.kind = "counter" -> AddTo(m, x)
                         [] m.kind = "gauge" -> [m EXCEPT !.v = SetTo(x)]
                         [] m.kind = "histogram" -> ObserveH(m, x)
                         [] m.kind = "summary" -> ObserveS(m, x, now)
DoTimeEnd(S) == [S EXCEPT !.met[Last(S.stk).m] = Recorded(@, Elapsed(S), S.mono), !.stk = Front(@)]
DoTimeAbort(S) == [S EXCEPT !.stk = Front(@)]

---- (* Labels and timestamps of a metric (C12, C15, C18) *)
\* gen counts the calls, chg those that changed something (whether the others replace the label set is up to the implementation).
DoLabels(S, h, L) == LET m == M(S, h) IN SetM(S, h, [m EXCEPT !.labels = L, !.gen = @ + 1, !.chg = IF L = m.labels THEN @ ELSE @ + 1])
DoTs(S, h, t) == SetM(S, h, [M(S, h) EXCEPT !.ts = t])
\* own: the reference keeps its snapshot alive itself (an iterator does, a plain reference obtained through one does not).
DoHold(S, it, h, items, own) ==
  [S EXCEPT !.held = Put(@, it, [m |-> S.hdl[h], gen |-> M(S, h).gen, chg |-> M(S, h).chg, items |-> items, live |-> TRUE, own |-> own])]
DoRelease(S, it) == [S EXCEPT !.held[it].live = FALSE]
\* Is the snapshot of a held reference released?  It is once it is replaced and nobody can see it any more.
Seers(S, x) == {j \in DOMAIN S.held : S.held[j].live /\ S.held[j].m = x.m}
ReleasedOk(S, it, freed) ==
  LET x == S.held[it]
  IN /\ x.gen = S.met[x.m].gen \/ (\E j \in Seers(S, x) : S.held[j].own /\ S.held[j].gen = x.gen) => ~freed
     /\ x.chg # S.met[x.m].chg /\ (\A j \in Seers(S, x) : S.held[j].chg # x.chg) => freed

---- (* Clocks *)
DoAdvance(S, d) == [S EXCEPT !.mono = TAdd(@, d), !.wall = TAdd(@, d)]
DoWall(S, w) == [S EXCEPT !.wall = w]

-----------------------------------------------------------------------------
(* Gathering (C08, C09).                                                                                          *)
Ends(c) == c.t = "script" /\ (c.steps = <<>> \/ c.steps[1] = <<0>>)
Panics(c) == c.t = "script" /\ c.steps # <<>> /\ c.steps[1] = <<-1>>
Answer(S, c) == IF c.t = "metric" THEN (IF Alive(S, c.m) THEN <<c.m>> ELSE <<>>)
                ELSE IF Ends(c) \/ Panics(c) THEN <<>> ELSE c.steps[1]
\* The metrics a gather of g includes (a bag, as a sequence), and the collectors of the user it calls.
Gathered(S, g) == FlattenSeq([i \in DOMAIN S.gat[g] |-> Answer(S, S.gat[g][i])])
Called(S, g) == [i \in DOMAIN SelectSeq(S.gat[g], LAMBDA c : c.t = "script") |-> SelectSeq(S.gat[g], LAMBDA c : c.t = "script")[i].c]
Survives(S, c) == IF c.t = "metric" THEN Alive(S, c.m) ELSE ~Ends(c)
TailOf(s) == IF s = <<>> THEN s ELSE Tail(s)
NextStep(c) == IF c.t = "metric" THEN c ELSE [c EXCEPT !.steps = Tail(@), !.acts = TailOf(@)]
\* What the collectors of the user register while a gather of g calls them, and what of that is registered with g itself.
Registered(S, g) == FlattenSeq([i \in DOMAIN S.gat[g] |-> IF S.gat[g][i].acts = <<>> THEN <<>> ELSE S.gat[g][i].acts[1]])
Own(S, g) == SelectSeq(Registered(S, g), LAMBDA a : a.g = g)
\* Those may or may not be called by the same gather: D are the ones that are.
GatheredWith(S, g, D) == LET own == Own(S, g) IN Gathered(S, g) \o FlattenSeq([i \in DOMAIN own |-> IF i \in D THEN Answer(S, own[i].c) ELSE <<>>])
CalledWith(S, g, D) == LET own == Own(S, g) IN Called(S, g) \o FlattenSeq([i \in DOMAIN own |-> IF i \in D /\ own[i].c.t = "script" THEN <<own[i].c.c>> ELSE <<>>])
FeedRegistered(S, as, g) == FoldLeft(LAMBDA T, a : IF a.g = g THEN T ELSE Feed(T, a.g, a.c), S, as)
DoGather(S, g, D) == LET live == SelectSeq(S.gat[g], LAMBDA c : Survives(S, c))
                         own == Own(S, g)
                         late == FlattenSeq([i \in DOMAIN own |-> IF i \notin D THEN <<own[i].c>>
                                                                 ELSE IF Survives(S, own[i].c) THEN <<NextStep(own[i].c)>> ELSE <<>>])
                     IN FeedRegistered([S EXCEPT !.gat[g] = [i \in DOMAIN live |-> NextStep(live[i])] \o late], Registered(S, g), g)

\* A gather that a collector of the user ends with a panic: C are the collectors of the user that were called, in some
\* order up to it. Nothing happens to the others.
PanicOk(S, g, calls) == /\ \A i, j \in DOMAIN calls : i # j => calls[i] # calls[j]
                        /\ \A i \in DOMAIN calls : \E j \in DOMAIN S.gat[g] : S.gat[g][j].t = "script" /\ S.gat[g][j].c = calls[i]
                        /\ \E i \in DOMAIN calls : \E j \in DOMAIN S.gat[g] : Panics(S.gat[g][j]) /\ S.gat[g][j].c = calls[i]
DoGatherPanic(S, g, C) == LET here(c) == c.t = "script" /\ c.c \in C
                              left == SelectSeq(S.gat[g], LAMBDA c : ~(here(c) /\ Ends(c)))
                          IN [S EXCEPT !.gat[g] = [i \in DOMAIN left |-> IF here(left[i]) THEN NextStep(left[i]) ELSE left[i]]]

Key(m) == <<m.full, m.kind, m.labels>>
Keys(S, mem) == {Key(S.met[mem[i]]) : i \in DOMAIN mem}
Members(S, mem, key) == LET s == SelectSeq(mem, LAMBDA i : Key(S.met[i]) = key) IN [i \in DOMAIN s |-> S.met[s[i]]]
\* A kept result holds every member of a merged histogram or summary, and at least one of a merged counter or gauge.
Holdings(S, mem) ==
  LET keys == [i \in DOMAIN mem |-> Key(S.met[mem[i]])]
      alone(i) == \A j \in DOMAIN mem : keys[j] = keys[i] => mem[j] = mem[i]
      whole == {mem[i] : i \in {j \in DOMAIN mem : S.met[mem[j]].kind \in {"histogram", "summary"} \/ alone(j)}}
      some == {K \in SUBSET (ToSet(mem) \ whole) :
                 \A k \in {Key(S.met[m]) : m \in ToSet(mem) \ whole} : \E m \in K : Key(S.met[m]) = k}
  IN {whole \cup K : K \in some}
DoKeep(S, k, ms) == [S EXCEPT !.res = Put(@, k, ms)]
DoDropResult(S, k) == [S EXCEPT !.res = Del(@, k)]

\* The sum of metrics' values.
Settled(m) == IF m.kind = "gauge" /\ m.v.k = 0 THEN SumOf(m.v.f) ELSE m.v
SumOver(ms) == FoldLeft(LAMBDA p, m : Plus(p, Settled(m)), NoSum, ms)
ValueIs(ms, x) == IF Len(ms) = 1 THEN SumIs(ms[1].v, 1, x) ELSE SumIs(SumOver(ms), Len(ms), x)
SeriesTs(ms) == TsMax({ms[i].ts : i \in DOMAIN ms})
SeriesCount(ms) == IF ms[1].kind = "histogram" THEN TotalCount(ms) ELSE SumNat([i \in DOMAIN ms |-> ms[i].n])
SeriesSamples(ms, now) == FlattenSeq([i \in DOMAIN ms |-> Values(Current(ms[i], now))])
SeriesQs(ms) == FlattenSeq([i \in DOMAIN ms |-> ms[i].qs])
=============================================================================
