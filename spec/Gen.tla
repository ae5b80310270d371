-------------------------------- MODULE Gen --------------------------------
(* Bounded exploration of the specification itself.  The file named by TRACE holds an alphabet of calls (as in a log, *)
(* without answers), the calls that come first, and how many may follow.  TLC visits every state that can be reached  *)
(*  - checking that what Prometrics says of a state agrees with what the history alone says (the invariants below:    *)
(*    definitions in terms of the whole history, independent of how Prometrics keeps its state), and                  *)
(*  - printing, for every transition it finds, a shortest history that ends with it.  The real crate performs each    *)
(*    of these histories and the log is checked against the specification again (Trace).                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, SequencesExt, FiniteSets, FiniteSetsExt, Functions

Data == JsonDeserialize(IOEnv.TRACE)
StrCp(i) == Data.S[i].c
StrOrd(i) == Data.S[i].o
P == INSTANCE Prometrics WITH Cp <- StrCp, Ord <- StrOrd
N == INSTANCE Num
F(i) == Data.F[i]
Fs(seq) == [i \in DOMAIN seq |-> F(seq[i])]
A == Data.alphabet
Setup == Data.setup
Depth == Data.depth

VARIABLES S,       \* the state
          hist     \* the calls that followed the setup: <<index, metric, state of the clock, what it made>>
vars == <<S, hist>>

-----------------------------------------------------------------------------
Has(T, h) == h \in DOMAIN T.hdl
KindOf(T, h) == T.met[T.hdl[h]].kind
Pre(T, e) ==       \* can it be called?
  CASE e.op \in {"gatherer"} -> e.g \notin DOMAIN T.gat
    [] e.op \in {"drop_gatherer", "gather"} -> e.g \in DOMAIN T.gat
    [] e.op = "registry" -> e.g \in DOMAIN T.gat /\ e.r \notin DOMAIN T.reg
    [] e.op = "clone_registry" -> e.from \in DOMAIN T.reg /\ e.r \notin DOMAIN T.reg
    [] e.op = "register" -> e.r \in DOMAIN T.reg /\ Has(T, e.h)
    [] e.op = "register_script" -> e.r \in DOMAIN T.reg /\ \A i \in DOMAIN e.script : \A j \in DOMAIN e.script[i] : e.script[i][j] = 0 \/ Has(T, e.script[i][j])
    [] e.op = "mb_new" -> e.b \notin DOMAIN T.mb /\ (e.r = 0 \/ e.r \in DOMAIN T.reg)
    [] e.op = "mb_clone" -> e.b \notin DOMAIN T.mb /\ e.from \in DOMAIN T.mb
    [] e.op = "mb_set" -> e.b \in DOMAIN T.mb /\ (e.r = 0 \/ e.r \in DOMAIN T.reg)
    [] e.op = "bld" -> e.b \notin DOMAIN T.bld /\ (e.via = 0 \/ e.via \in DOMAIN T.mb)
    [] e.op = "bset" -> e.b \in DOMAIN T.bld /\ (e.r = 0 \/ e.r \in DOMAIN T.reg)
    [] e.op = "fin" -> e.b \in DOMAIN T.bld /\ ~Has(T, e.h)
    [] e.op = "new" -> ~Has(T, e.h)
    [] e.op = "clone" -> Has(T, e.h) /\ ~Has(T, e.to)
    [] e.op = "drop_result" -> e.keep \in DOMAIN T.res
    [] e.op \in {"advance", "step_wall"} -> TRUE
    [] e.op = "track_end" -> T.stk # <<>> /\ Last(T.stk).op = "track"
    [] e.op = "time_end" -> T.stk # <<>> /\ Last(T.stk).op = "time"
    [] e.op \in {"held_drop", "held_read", "held_freed"} -> e.it \in DOMAIN T.held /\ IF e.op = "held_freed" THEN T.held[e.it].items # {} ELSE T.held[e.it].live
    [] e.op \in {"hold_iter"} -> Has(T, e.h) /\ e.it \notin DOMAIN T.held
    [] OTHER -> Has(T, e.h)
Layout(e) == CASE e.layout = "lin" -> P!Linear(F(e.start), F(e.width), e.cnt)
               [] e.layout = "exp" -> P!Exponential(F(e.start), F(e.width), e.cnt)
               [] OTHER -> <<>>
\* The bounds as given; computed ones are taken to be exact.
Bounds(B) == P!Ascending(Append([i \in DOMAIN B.bounds |-> B.bounds[i].x], N!PInf))
Build(T, B, h) == IF P!BuildOk(B) THEN P!DoBuild(T, B, h, IF B.kind = "histogram" THEN Bounds(B) ELSE <<>>) ELSE T
Do(T, e) ==
  CASE e.op = "gatherer" -> P!DoGatherer(T, e.g)
    [] e.op = "drop_gatherer" -> P!DoDropGatherer(T, e.g)
    [] e.op = "registry" -> P!DoRegistry(T, e.r, e.g)
    [] e.op = "clone_registry" -> P!DoCloneRegistry(T, e.r, e.from)
    [] e.op = "register" -> P!DoRegister(T, e.r, e.h)
    [] e.op = "register_script" -> P!DoRegisterScript(T, e.r, e.c, e.script, e.acts)
    [] e.op = "mb_new" -> P!DoMbNew(T, e.b, e.r)
    [] e.op = "mb_clone" -> P!DoMbClone(T, e.b, e.from)
    [] e.op = "mb_set" -> P!DoMbSet(T, e.b, e.what, e.a, e.v, e.r)
    [] e.op = "bld" -> P!DoBuilder(T, e.b, e.kind, e.name, e.win, e.via, Layout(e))
    [] e.op = "bset" -> P!DoBset(T, e.b, e.what, e.a, e.v, Fs(e.x), e.r)
    [] e.op = "fin" -> Build(T, T.bld[e.b], e.h)
    [] e.op = "new" -> Build(T, P!NewBuilder(e.kind, e.name, e.win, P!NewMb(<<>>), <<>>), e.h)
    [] e.op = "clone" -> P!DoClone(T, e.h, e.to)
    [] e.op = "drop" -> P!DoDrop(T, e.h)
    [] e.op = "inc" -> P!DoIncrement(T, e.h, e.n)
    [] e.op = "dec" -> P!DoAdd(T, e.h, N!Whole(-1))
    [] e.op = "add" -> IF KindOf(T, e.h) # "counter" \/ P!CounterAccepts(F(e.v)) THEN P!DoAdd(T, e.h, F(e.v)) ELSE T
    [] e.op = "add_u64" -> P!DoAdd(T, e.h, F(e.v))
    [] e.op = "sub" -> P!DoAdd(T, e.h, N!Neg(F(e.v)))
    [] e.op = "set" -> P!DoSet(T, e.h, F(e.v))
    [] e.op = "set_now" -> P!DoSet(T, e.h, N!TNum(T.wall))
    [] e.op = "observe" -> IF KindOf(T, e.h) = "histogram" /\ F(e.v).c = "nan" THEN T ELSE P!DoObserve(T, e.h, F(e.v))
    [] e.op = "track_begin" -> P!DoTrackBegin(T, e.h)
    [] e.op = "track_end" -> P!DoTrackEnd(T)
    [] e.op = "time_begin" -> P!DoTimeBegin(T, e.h)
    [] e.op = "time_end" -> P!DoTimeEnd(T)
    [] e.op \in {"ts_set", "ts_set_time"} -> P!DoTs(T, e.h, P!TsNorm(e.v))
    [] e.op = "ts_now" -> P!DoTs(T, e.h, P!TsOfWall(T.wall))
    [] e.op = "ts_clear" -> P!DoTs(T, e.h, P!NoTs)
    [] e.op = "l_insert" -> IF P!LabelOk(KindOf(T, e.h), StrCp(e.a)) THEN P!DoLabels(T, e.h, P!LInsert(P!M(T, e.h).labels, e.a, e.v)) ELSE T
    [] e.op = "l_remove" -> P!DoLabels(T, e.h, P!LRemove(P!M(T, e.h).labels, e.a))
    [] e.op = "l_clear" -> P!DoLabels(T, e.h, {})
    [] e.op = "hold_iter" -> P!DoHold(T, e.it, e.h, P!M(T, e.h).labels, TRUE)
    [] e.op = "held_drop" -> P!DoRelease(T, e.it)
    [] e.op = "advance" -> P!DoAdvance(T, e.d)
    [] e.op = "step_wall" -> P!DoWall(T, e.w)
    [] e.op = "gather" ->
         LET T1 == P!DoGather(T, e.g, {})
         IN IF e.keep = 0 THEN T1 ELSE P!DoKeep(T1, e.keep, ToSet(P!Gathered(T, e.g)))
    [] e.op = "drop_result" -> P!DoDropResult(T, e.keep)
    [] e.op \in {"read", "describe", "ts_get", "l_iter", "l_get", "l_len", "held_read", "held_freed", "display", "display_labels"} -> T

\* The metric a call is about (0: none).
About(T, e) == IF e.op \in {"track_end", "time_end"} THEN Last(T.stk).m
               ELSE IF "h" \in DOMAIN e /\ Has(T, e.h) THEN T.hdl[e.h] ELSE 0
Since(T, e) == IF e.op = "time_end" THEN Last(T.stk).t ELSE T.mono

RECURSIVE After(_, _)
After(T, es) == IF es = <<>> THEN T ELSE After(Do(T, Head(es)), Tail(es))
Init == hist = <<>> /\ S = After([P!Init0 EXCEPT !.wall = Data.wall], Setup)
Next == \E i \in DOMAIN A :
          /\ Len(hist) < Depth
          /\ Pre(S, A[i])
          /\ S' = Do(S, A[i])
          /\ hist' = Append(hist, <<i, About(S, A[i]), S.mono, Since(S, A[i])>>)
          /\ PrintT(<<"H", [k \in DOMAIN hist' |-> hist'[k][1]]>>)
Spec == Init /\ [][Next]_vars
View == S

-----------------------------------------------------------------------------
(* What the history alone says.  Positions k of hist; metrics m that were made by the setup.                        *)
Old == DOMAIN (After([P!Init0 EXCEPT !.wall = Data.wall], Setup)).met
Op(k) == A[hist[k][1]]
On(k, m) == hist[k][2] = m
Is(k, ops) == Op(k).op \in ops
Calls(m, ops) == {k \in DOMAIN hist : On(k, m) /\ Is(k, ops)}
SumAt(ks, f(_)) == FoldSet(LAMBDA k, a : N!FSum(a, f(k)), N!Zero, ks)
\* A counter is the total of what was accepted; a refused amount is negative or NaN.
Elapsed(k) == N!TNum(N!TSub(hist[k][3], hist[k][4]))
Accepted(k) == CASE Is(k, {"inc"}) -> N!Whole(Op(k).n)
                 [] Is(k, {"time_end"}) -> Elapsed(k)
                 [] Is(k, {"add"}) -> IF F(Op(k).v).c = "fin" /\ ~N!Negative(F(Op(k).v)) THEN F(Op(k).v) ELSE N!Zero
                 [] OTHER -> F(Op(k).v)
CounterInv == \A m \in Old : S.met[m].kind = "counter" =>
                LET v == S.met[m].v
                    ks == Calls(m, {"inc", "add", "add_u64", "time_end"})
                IN (\E k \in ks : Op(k).op = "add" /\ F(Op(k).v).c = "inf" /\ F(Op(k).v).s = 0)
                   \/ N!SumIs(v, 1, N!FRound(SumAt(ks, Accepted)))
\* A gauge is what it was last set to (or started with), and what was added since.
Sets == {"set", "set_now"}
GaugeInv == \A m \in Old : S.met[m].kind = "gauge" =>
              LET sets == {k \in DOMAIN hist : On(k, m) /\ (Is(k, Sets) \/ Is(k, {"time_end"}))}
                  last == IF sets = {} THEN 0 ELSE Max(sets)
                  base == CASE last = 0 -> P!Init0 [] OTHER -> S
                  start == CASE last = 0 -> N!Zero
                             [] Is(last, {"set"}) -> F(Op(last).v)
                             [] OTHER -> N!Zero
                  later == {k \in Calls(m, {"inc", "dec", "add", "sub", "track_begin", "track_end"}) : k > last}
                  d(k) == CASE Is(k, {"inc"}) -> N!Whole(Op(k).n)
                            [] Is(k, {"dec", "track_end"}) -> N!Whole(-1)
                            [] Is(k, {"track_begin"}) -> N!One
                            [] Is(k, {"add"}) -> F(Op(k).v)
                            [] OTHER -> N!Neg(F(Op(k).v))
              IN \/ last # 0 /\ ~Is(last, {"set"})                       \* (a time; GaugeTimeInv)
                 \/ start.c # "fin" \/ (\E k \in later : d(k).c # "fin")
                 \/ last = 0 /\ Data.initial # 0                           \* (only gauges that start at 0)
                 \/ LET v == S.met[m].v           \* (each step rounds once)
                    IN v.f.c # "fin" \/ N!FNear(v.f, N!FRound(N!FSum(start, SumAt(later, d))), Cardinality(later) + 1, N!FUlp(v.a))
\* While nothing else happens to it, a gauge is as high as there are tracked closures in progress.
TrackInv == \A m \in Old : S.met[m].kind = "gauge" /\ Data.initial = 0 /\ Calls(m, {"set", "set_now", "inc", "dec", "add", "sub", "time_end"}) = {} =>
              N!SumIs(S.met[m].v, 1, N!Whole(Cardinality({i \in DOMAIN S.stk : S.stk[i].op = "track" /\ S.stk[i].m = m})))
\* A bucket counts what is above the bound before it and not above its own.
Seen(m) == {k \in Calls(m, {"observe", "time_end"}) : Is(k, {"time_end"}) \/ S.met[m].kind = "summary" \/ F(Op(k).v).c # "nan"}
What(k) == IF Is(k, {"observe"}) THEN F(Op(k).v) ELSE Elapsed(k)
HistogramInv == \A m \in Old : S.met[m].kind = "histogram" =>
                  LET x == S.met[m]
                  IN /\ \A i \in DOMAIN x.bounds :
                          x.cnt[i] = Cardinality({k \in Seen(m) : ~N!Lt(x.bounds[i], What(k)) /\ (i > 1 => N!Lt(x.bounds[i - 1], What(k)))})
                     /\ P!SumNat(x.cnt) = Cardinality(Seen(m))
                     /\ \A i \in 1..(Len(x.bounds) - 1) : N!Lt(x.bounds[i], x.bounds[i + 1]) /\ P!Cumul(x.cnt, i) <= P!Cumul(x.cnt, i + 1)
                     /\ N!Same(x.bounds[Len(x.bounds)], N!PInf)
\* The samples in the window are those of the calls that are not too old; all of them count.
SummaryInv == \A m \in Old : S.met[m].kind = "summary" =>
                LET x == S.met[m]
                    cur == P!Values(P!Current(x, S.mono))
                    young == {k \in Seen(m) : N!TLe(N!TSub(S.mono, hist[k][3]), x.win)}
                    ys == P!NonNaN(cur)
                IN /\ x.n = Cardinality(Seen(m))
                   /\ Len(cur) = Cardinality(young)
                   /\ \A v \in ToSet(cur) : Cardinality({i \in DOMAIN cur : N!Same(cur[i].x, v.x)}) = Cardinality({k \in young : N!Same(What(k), v.x)})
                   \* quantiles: the position exists, lies within the samples and ascends with q
                   /\ ys # <<>> => \A i \in DOMAIN x.qs : \E v \in ToSet(ys) : P!QuantileOk(x.qs[i], v.x, ys)
                   /\ ys # <<>> => \A i, j \in DOMAIN x.qs : N!Lt(x.qs[i], x.qs[j]) =>
                        \A v, w \in ToSet(ys) : P!QuantileOk(x.qs[i], v.x, ys) /\ P!QuantileOk(x.qs[j], w.x, ys) /\ N!Lt(w.x, v.x) => FALSE
\* Merging two histograms: at each bound of either, the observations at most there, as far as the layouts tell: none
\* that is above is counted, and none is missed whose own histogram has that bound.
MergeInv == \A m1 \in Old, m2 \in Old :
              m1 < m2 /\ S.met[m1].kind = "histogram" /\ S.met[m2].kind = "histogram" =>
                \A hs \in {<<S.met[m1], S.met[m2]>>} :
                  \A bs \in {P!MergedBounds(hs)}, filled \in {P!Filled(hs)} :
                    LET at(b) == P!CountAt(filled, b)
                        below(m, b) == Cardinality({k \in Seen(m) : N!Le(What(k), b)})
                        has(m, b) == \E i \in DOMAIN S.met[m].bounds : N!Same(S.met[m].bounds[i], b)
                    IN /\ at(N!PInf) = Cardinality(Seen(m1)) + Cardinality(Seen(m2))
                       /\ \A i \in DOMAIN bs : /\ at(bs[i]) <= below(m1, bs[i]) + below(m2, bs[i])
                                               /\ has(m1, bs[i]) /\ has(m2, bs[i]) => at(bs[i]) = below(m1, bs[i]) + below(m2, bs[i])
                                               /\ i > 1 => at(bs[i - 1]) <= at(bs[i])
                                               /\ has(m1, bs[i]) \/ has(m2, bs[i])
\* A label has the value last inserted for it, if it has not been removed since.
LabelInv == \A m \in Old :
              LET about == {k \in Calls(m, {"l_insert", "l_remove", "l_clear"}) : Is(k, {"l_insert"}) => P!LabelOk(S.met[m].kind, StrCp(Op(k).a))}
                  names == {Op(k).a : k \in {j \in about : ~Is(j, {"l_clear"})}}
              IN \A a \in names :
                   LET ks == {k \in about : Is(k, {"l_clear"}) \/ Op(k).a = a}
                       last == Max(ks)
                   IN {p \in S.met[m].labels : p[1] = a} = IF Is(last, {"l_insert"}) THEN {<<a, Op(last).v>>} ELSE {}
\* Of a builder's labels too the last one set counts; other settings likewise.
BuilderInv == \A b \in DOMAIN S.bld :
                LET ks(w) == {k \in DOMAIN hist : Is(k, {"bset"}) /\ Op(k).b = b /\ Op(k).what = w}
                    last(w) == Op(Max(ks(w)))
                    B == S.bld[b]
                IN /\ ks("namespace") # {} => B.ns = last("namespace").v
                   /\ ks("subsystem") # {} => B.sub = last("subsystem").v
                   /\ ks("help") # {} => B.help = last("help").v
                   /\ \A k \in ks("label") : LET same == {j \in ks("label") : Op(j).a = Op(k).a}
                                             IN {p \in B.labels : p[1] = Op(k).a} = {<<Op(k).a, Op(Max(same)).v>>}
                   /\ Cardinality({p[1] : p \in B.labels}) = Cardinality(B.labels)
\* What has been built stays as it was built.
BuiltInv == \A k \in DOMAIN hist : Is(k, {"fin"}) /\ hist[k][2] = 0 /\ Op(k).h \in DOMAIN S.hdl =>
              P!FullName(S.met[S.hdl[Op(k).h]].ns, S.met[S.hdl[Op(k).h]].sub, S.met[S.hdl[Op(k).h]].name) = S.met[S.hdl[Op(k).h]].full
\* The timestamp is the one last set.
TsInv == \A m \in Old :
           LET ks == Calls(m, {"ts_set", "ts_set_time", "ts_clear", "ts_now"})
           IN ks # {} => LET k == Max(ks) IN CASE Is(k, {"ts_clear"}) -> S.met[m].ts = P!NoTs
                                              [] Is(k, {"ts_now"}) -> S.met[m].ts.k = 1
                                              [] OTHER -> S.met[m].ts = P!TsNorm(Op(k).v)
TotalOf(ps) == FoldSet(LAMBDA p, a : a + p[2], 0, ps)
\* A gather includes a metric as often as it is registered, if somebody has it, and calls nobody twice per registration.
GatherInv == \A g \in DOMAIN S.gat :
               /\ \A i \in DOMAIN S.gat[g] : LET c == S.gat[g][i] IN
                    c.t = "metric" => (P!Survives(S, c) <=> \/ (\E h \in DOMAIN S.hdl : S.hdl[h] = c.m)
                                                          \/ (\E k \in DOMAIN S.res : c.m \in S.res[k])
                                                          \/ (\E j \in DOMAIN S.stk : S.stk[j].m = c.m)
                                                          \/ (\E j \in DOMAIN S.held : S.held[j].m = c.m)
                                                          \/ P!InScript(S, c.m))
               /\ \A m \in DOMAIN S.met :
                    Cardinality({i \in DOMAIN P!Gathered(S, g) : P!Gathered(S, g)[i] = m}) =
                      TotalOf({<<i, Cardinality({n \in DOMAIN P!Answer(S, S.gat[g][i]) : P!Answer(S, S.gat[g][i])[n] = m})>> : i \in DOMAIN S.gat[g]})
=============================================================================
