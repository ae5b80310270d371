------------------------------- MODULE Trace -------------------------------
(* Are the logs of the real crate behaviours of the specification?  The file named by the environment variable    *)
(* TRACE holds many logs; each is an initial state of its own, and every logged call must be the operation of      *)
(* Prometrics with the logged arguments, answering what the log says.  Props restricts which answers are compared  *)
(* (the effect on the state is always that of the specification).                                                  *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, TLCExt, SequencesExt, FiniteSets

Data == JsonDeserialize(IOEnv.TRACE)
Props == ToSet(Data.props)
Traces == Data.traces
StrCp(i) == Data.S[i].c
StrOrd(i) == Data.S[i].o
X == INSTANCE Text
P == INSTANCE Prometrics WITH Cp <- StrCp, Ord <- StrOrd
N == INSTANCE Num
F(i) == Data.F[i]
Fs(seq) == [i \in DOMAIN seq |-> F(seq[i])]

VARIABLES tr, l, S, perm
vars == <<tr, l, S, perm>>

On(ps) == ps \cap Props # {}
E == Traces[tr].ev[l]
R == E.ret

-----------------------------------------------------------------------------
(* Comparing an observation with the state.                                                                       *)
Pairs(seq) == [i \in DOMAIN seq |-> <<seq[i][1], seq[i][2]>>]
ListingOk(seq, L) == P!LListing(Pairs(seq), L)
LabelSet(seq) == {<<seq[i][1], seq[i][2]>> : i \in DOMAIN seq}
TsOk(obs, t) == P!TsNorm([k |-> obs.k, neg |-> obs.neg, hi |-> obs.hi, lo |-> obs.lo, ms |-> obs.ms]) = t
FPairs(seq) == [i \in DOMAIN seq |-> <<F(seq[i][1]), F(seq[i][2])>>]

\* A counter's value: the sum, and in any case not below what is known.
Is(m, x) == N!SumIs(m.v, 1, x)
CounterOk(m, x) == Is(m, x) /\ x.c # "nan" /\ x.r >= m.low
ValueOk(m, x) == IF m.kind = "counter" THEN (On({"C01", "C03"}) => CounterOk(m, x)) ELSE (On({"C02", "C03"}) => Is(m, x))

BoundsOk(seq, bounds) == /\ Len(seq) = Len(bounds)
                         /\ \A i \in DOMAIN seq : LET b == F(seq[i][1])
                                                  IN N!Same(bounds[i], b)
BoundsBuiltOk(B, xs) == B.kind = "histogram" => P!BoundsFor(B.bounds, xs)
BucketsOk(seq, m) == BoundsOk(seq, m.bounds) /\ \A i \in DOMAIN seq : seq[i][2] = m.cnt[i]
CumulOk(seq, m) == BoundsOk(seq, m.bounds) /\ \A i \in DOMAIN seq : seq[i][2] = P!Cumul(m.cnt, i)
QuantOk(seq, m) == P!QuantilesOk(FPairs(seq), m.qs, P!Values(P!Current(m, S.mono)), FALSE)

DescOk(d, m) ==
  /\ On({"C13", "C14"}) => d.kind = m.kind /\ StrCp(d.full) = m.full /\ d.ns = m.ns /\ d.sub = m.sub /\ d.name = m.name
  /\ On({"C14"}) => d.help = m.help
  /\ On({"C12", "C14"}) => ListingOk(d.labels, m.labels)
  /\ On({"C15"}) => TsOk(d.ts, m.ts)
  /\ m.kind = "counter" => (On({"C01", "C14"}) => CounterOk(m, F(d.v)))
  /\ m.kind = "gauge" => (On({"C02", "C14"}) => Is(m, F(d.v)))
  /\ m.kind = "histogram" => (On({"C04", "C14"}) => /\ BucketsOk(d.buckets, m) /\ CumulOk(d.cum, m)
                                                    /\ d.count = P!SumNat(m.cnt) /\ Is(m, F(d.v)))
  /\ m.kind = "summary" => /\ On({"C06"}) => d.count = m.n /\ Is(m, F(d.v))
                           /\ On({"C06", "C07", "C14"}) => QuantOk(d.quant, m)

-----------------------------------------------------------------------------
(* Gather results.                                                                                                *)
FamKey(f) == <<StrCp(f.full), f.kind>>
SerKey(f, s) == <<StrCp(f.full), f.kind, LabelSet(s.labels)>>
MergedCumOk(seq, ms) ==
  LET bs == P!MergedBounds(ms)
      filled == P!Filled(ms)
  IN /\ BoundsOk(seq, bs)
     /\ \A i \in DOMAIN seq : seq[i][2] = P!CountAt(filled, bs[i])

SeriesOk(f, s, ms, now) ==
  /\ On({"C09"}) => StrCp(s.name) = StrCp(f.full)
  /\ On({"C12"}) => ListingOk(s.labels, ms[1].labels)
  /\ On({"C15"}) => TsOk(s.ts, P!SeriesTs(ms))
  /\ f.kind = "counter" => (On({"C01", "C09"}) => P!ValueIs(ms, F(s.v)) /\ (Len(ms) = 1 => CounterOk(ms[1], F(s.v))))
  /\ f.kind = "gauge" => (On({"C02", "C03", "C09"}) => P!ValueIs(ms, F(s.v)))
  /\ f.kind = "histogram" =>
       /\ On({"C10"}) \/ (On({"C04"}) /\ Len(ms) = 1) => MergedCumOk(s.cum, ms)
       /\ On({"C09", "C10"}) => s.count = P!SeriesCount(ms)
       /\ On({"C09"}) => P!ValueIs(ms, F(s.v))
  /\ f.kind = "summary" =>
       /\ On({"C07", "C09"}) => s.count = P!SeriesCount(ms) /\ P!ValueIs(ms, F(s.v))
       /\ On({"C07"}) \/ (On({"C06"}) /\ Len(ms) = 1) => P!QuantilesOk(FPairs(s.quant), P!SeriesQs(ms), P!SeriesSamples(ms, now), TRUE)

FamiliesOk(fams, mem) ==
  LET keys == P!Keys(S, mem)
      SerSet(f) == {SerKey(f, f.series[i]) : i \in DOMAIN f.series}
  IN \* exactly the families and series of the included metrics, each once
     /\ Len(fams) = Cardinality({<<k[1], k[2]>> : k \in keys})
     /\ {FamKey(fams[i]) : i \in DOMAIN fams} = {<<k[1], k[2]>> : k \in keys}
     /\ \A i \in DOMAIN fams :
          LET f == fams[i]
          IN /\ Cardinality(SerSet(f)) = Len(f.series)
             /\ SerSet(f) = {k \in keys : k[1] = StrCp(f.full) /\ k[2] = f.kind}
             /\ On({"C09", "C14"}) => \E j \in DOMAIN mem : LET m == S.met[mem[j]]
                                                 IN m.full = StrCp(f.full) /\ m.kind = f.kind /\ m.help = f.help
             /\ \A j \in DOMAIN f.series : SeriesOk(f, f.series[j], P!Members(S, mem, SerKey(f, f.series[j])), S.mono)
Presence == {"C01", "C02", "C04", "C06", "C08", "C09", "C10", "C07", "C14", "C12", "C15", "C03", "C13"}
Shape(fams) == [i \in DOMAIN fams |-> <<fams[i].full, fams[i].kind, [j \in DOMAIN fams[i].series |-> Pairs(fams[i].series[j].labels)]>>]
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]

-----------------------------------------------------------------------------
(* Texts (C11).  Data.W lists the words of the texts that are numbers as Prometheus reads them: what number each    *)
(* is (f; 0: none) and what integer (t, a timestamp record; k = 2: none).                                          *)
Word == [w \in {Data.W[i].c : i \in DOMAIN Data.W} |-> CHOOSE x \in ToSet(Data.W) : x.c = w]
IsWord(w) == w \in DOMAIN Word
NumberIs(w, x) == IsWord(w) /\ Word[w].f # 0 /\ N!Eq(x, F(Word[w].f))
TsIs(w, t) == IF t.k = 0 THEN w = <<>> ELSE IsWord(w) /\ Word[w].t.k = 1 /\ TsOk(Word[w].t, P!TsNorm(t))
Suffix(name, x) == name \o x
BUCKET == <<95, 98, 117, 99, 107, 101, 116>>
SUM == <<95, 115, 117, 109>>
COUNT == <<95, 99, 111, 117, 110, 116>>
CpPairs(labels) == {<<StrCp(labels[i][1]), StrCp(labels[i][2])>> : i \in DOMAIN labels}
Labs(it) == ToSet(it.labs)
Names(it) == {p[1] : p \in Labs(it)}
WellLabelled(it) == Cardinality(Names(it)) = Len(it.labs)
\* The one sample of name n whose labels are ls and, if x is not empty, a label r whose value is the number x[1].
The(items, n, ls, r, x) ==
  {i \in DOMAIN items : /\ items[i].name = n
                        /\ IF x = <<>> THEN Labs(items[i]) = ls
                           ELSE \E p \in Labs(items[i]) : p[1] = r /\ NumberIs(p[2], x[1]) /\ Labs(items[i]) \ {p} = ls}
Has(items, n, ls, r, x, v, t) ==
  LET c == The(items, n, ls, r, x)
  IN Cardinality(c) = 1 /\ \A i \in c : NumberIs(items[i].v, v) /\ TsIs(items[i].ts, t)
\* The samples of one series s (as the API reports it): how many, and whether they are all there.
LE == P!Reserved("histogram")
QUANTILE == P!Reserved("summary")
Lines(kind, s) == CASE kind = "histogram" -> 2 + Len(s.cum) [] kind = "summary" -> 2 + Len(s.quant) [] OTHER -> 1
Written(items, kind, full, s) ==
  LET n == StrCp(full)
      ls == CpPairs(s.labels)
  IN CASE kind \in {"counter", "gauge"} -> Has(items, n, ls, <<>>, <<>>, F(s.v), s.ts)
       [] kind = "histogram" ->
            /\ \A i \in DOMAIN s.cum : Has(items, Suffix(n, BUCKET), ls, LE, <<F(s.cum[i][1])>>, N!Whole(s.cum[i][2]), s.ts)
            /\ Has(items, Suffix(n, SUM), ls, <<>>, <<>>, F(s.v), s.ts)
            /\ Has(items, Suffix(n, COUNT), ls, <<>>, <<>>, N!Whole(s.count), s.ts)
       [] kind = "summary" ->
            /\ \A i \in DOMAIN s.quant : Has(items, n, ls, QUANTILE, <<F(s.quant[i][1])>>, F(s.quant[i][2]), s.ts)
            /\ Has(items, Suffix(n, SUM), ls, <<>>, <<>>, F(s.v), s.ts)
            /\ Has(items, Suffix(n, COUNT), ls, <<>>, <<>>, N!Whole(s.count), s.ts)
SamplesOk(items, kind, full, series) ==
  /\ \A i \in DOMAIN items : WellLabelled(items[i])
  /\ Cardinality({<<items[i].name, Labs(items[i])>> : i \in DOMAIN items}) = Len(items)
  /\ Len(items) = P!SumNat([i \in DOMAIN series |-> Lines(kind, series[i])])
  /\ \A i \in DOMAIN series : Written(items, kind, full, series[i])
KindCp == [counter |-> <<99, 111, 117, 110, 116, 101, 114>>, gauge |-> <<103, 97, 117, 103, 101>>,
           histogram |-> <<104, 105, 115, 116, 111, 103, 114, 97, 109>>, summary |-> <<115, 117, 109, 109, 97, 114, 121>>]
FamilyOk(p, f) ==
  /\ p.name = StrCp(f.full)
  /\ p.kind = KindCp[f.kind]
  /\ p.help = IF f.help = 0 THEN <<>> ELSE <<StrCp(f.help)>>
  /\ SamplesOk(p.samples, f.kind, f.full, f.series)
TextOk(text, fams) == LET ps == X!Parse(text) IN Len(ps) = Len(fams) /\ \A i \in DOMAIN fams : FamilyOk(ps[i], fams[i])
\* Sample lines alone.
ItemsOk(text, kind, full, series) ==
  LET its == X!Items(text) IN (\A i \in DOMAIN its : its[i].t = "sample") /\ SamplesOk(its, kind, full, series)
TextsOk(r) ==
  /\ TextOk(StrCp(r.text), r.fams)
  /\ Len(r.display) = Len(r.fams)
  /\ \A i \in DOMAIN r.fams :
       /\ TextOk(StrCp(r.display[i]), <<r.fams[i]>>)
       /\ Len(r.lines[i]) = Len(r.fams[i].series)
       /\ \A j \in DOMAIN r.lines[i] : ItemsOk(Append(StrCp(r.lines[i][j]), X!LF), r.fams[i].kind, r.fams[i].full, <<r.fams[i].series[j]>>)
\* Every sample line of a series ends with its timestamp, if it has one (C15).
TimestampsOk(r) ==
  LET ps == X!Parse(StrCp(r.text))
  IN /\ Len(ps) = Len(r.fams)
     /\ \A i \in DOMAIN r.fams : \A j \in DOMAIN r.fams[i].series :
          LET f == r.fams[i]
              ls == CpPairs(f.series[j].labels)
              r0 == P!Reserved(f.kind)
              mine == {k \in DOMAIN ps[i].samples : {p \in Labs(ps[i].samples[k]) : r0 = <<>> \/ p[1] # r0} = ls}
          IN mine # {} /\ \A k \in mine : TsIs(ps[i].samples[k].ts, f.series[j].ts)
\* {..} on its own: read as the labels of a sample line.
LabelsText(w) == LET its == X!Items(<<120>> \o w \o <<32, 49, 10>>)
                 IN IF Len(its) = 1 /\ its[1].t = "sample" THEN its[1].labs ELSE <<<<>>>>

-----------------------------------------------------------------------------
(* Comparisons (C19): equal exactly when they are the same, totally ordered, equal hashes if equal.                *)
OrderOk(r, n, same(_, _)) ==
  LET I == 1..n
  IN /\ \A i, j \in I : /\ r.eq[i][j] = same(i, j)
                         /\ (r.cmp[i][j] = 0) = same(i, j)
                         /\ r.cmp[i][j] = -r.cmp[j][i]
                         /\ r.part[i][j] = r.cmp[i][j]
     /\ \A i, j, k \in I : r.cmp[i][j] < 0 /\ r.cmp[j][k] < 0 => r.cmp[i][k] < 0
HashOk(r, n, same(_, _)) == \A i, j \in 1..n : same(i, j) => r.hash[i] = r.hash[j]
CompareOk(e, r) ==
  CASE e.what = "name" ->
         LET full(i) == P!M(S, e.hs[i]).full
             same(i, j) == full(i) = full(j)
         IN OrderOk(r, Len(e.hs), same) /\ HashOk(r, Len(e.hs), same) /\ \A i \in DOMAIN e.hs : StrCp(r.shown[i]) = full(i)
    [] e.what = "label" -> LET same(i, j) == e.ls[i] = e.ls[j] IN OrderOk(r, Len(e.ls), same) /\ HashOk(r, Len(e.ls), same)
    [] e.what = "quantile" ->
         LET same(i, j) == N!Eq(F(e.qs[i]), F(e.qs[j]))
         IN /\ OrderOk(r, Len(e.qs), same)
            /\ \A i, j \in DOMAIN e.qs : N!Lt(F(e.qs[i]), F(e.qs[j])) => r.cmp[i][j] < 0

-----------------------------------------------------------------------------
\* (= TRUE: TLC explores every way in which a disjunction in an action holds; here it need not.)
Yes(b) == b = TRUE
Unit == R.t = "ok"
m0 == P!M(S, E.h)
Keep(x) == S' = x /\ UNCHANGED perm
\* The outcome of a call that is not the subject of the properties being checked is not judged; its effect is as specified.
Plain(x) == (On({"C01", "C02", "C04", "C06", "C08", "C12", "C14", "C15"}) => Unit) /\ Keep(x)

Step ==
  CASE E.op = "gatherer" -> Plain(P!DoGatherer(S, E.g))
    [] E.op = "reset_default" -> Plain(P!DoResetDefault(S))
    [] E.op = "dur_secs" -> /\ R.t = "f"
                            /\ Yes(On({"C03"}) => LET x == N!FRound(N!FSum(F(E.s), N!FSecs(0, E.n))) IN N!FNear(x, F(R.v), 2, N!FUlp(x)))
                            /\ Keep(S)
    [] E.op = "drop_gatherer" -> Plain(P!DoDropGatherer(S, E.g))
    [] E.op = "registry" -> Plain(P!DoRegistry(S, E.r, E.g))
    [] E.op = "clone_registry" -> Plain(P!DoCloneRegistry(S, E.r, E.from))
    [] E.op = "register" -> Plain(P!DoRegister(S, E.r, E.h))
    [] E.op = "register_script" -> Plain(P!DoRegisterScript(S, E.r, E.c, E.script, E.acts))
    [] E.op = "mb_new" -> Plain(P!DoMbNew(S, E.b, E.r))
    [] E.op = "mb_clone" -> Plain(P!DoMbClone(S, E.b, E.from))
    [] E.op = "mb_set" -> Plain(P!DoMbSet(S, E.b, E.what, E.a, E.v, E.r))
    [] E.op = "bld" ->
         Plain(P!DoBuilder(S, E.b, E.kind, E.name, E.win, E.via,
                           CASE E.layout = "lin" -> P!Linear(F(E.start), F(E.width), E.cnt)
                             [] E.layout = "exp" -> P!Exponential(F(E.start), F(E.width), E.cnt)
                             [] OTHER -> <<>>))
    [] E.op = "bset" -> Plain(P!DoBset(S, E.b, E.what, E.a, E.v, Fs(E.x), E.r))
    [] E.op \in {"fin", "new"} ->
         LET B == IF E.op = "fin" THEN S.bld[E.b] ELSE P!NewBuilder(E.kind, E.name, E.win, P!NewMb(<<>>), <<>>)
         IN IF P!BuildOk(B)
              THEN /\ R.t = "desc"
                   /\ LET xs == [i \in DOMAIN R.buckets |-> F(R.buckets[i][1])]
                          S1 == P!DoBuild(S, B, E.h, xs)
                      IN Yes(BoundsBuiltOk(B, xs) /\ DescOk(R, P!M(S1, E.h))) /\ Keep(S1)
              ELSE R.t = "err" /\ R.k = "InvalidInput" /\ Keep(S)
    [] E.op = "clone" -> Plain(P!DoClone(S, E.h, E.to))
    [] E.op = "drop" -> Plain(P!DoDrop(S, E.h))
    [] E.op = "describe" -> R.t = "desc" /\ Yes(DescOk(R, m0)) /\ Keep(IF m0.kind = "counter" THEN P!DoRead(S, E.h, F(R.v)) ELSE S)
    [] E.op = "read" ->
        (CASE E.what = "value" -> R.t = "f" /\ Yes(ValueOk(m0, F(R.v))) /\ Keep(IF m0.kind = "counter" THEN P!DoRead(S, E.h, F(R.v)) ELSE S)
           [] E.what = "count" -> R.t = "i" /\ (On({"C03", "C04", "C06"}) => R.n = IF m0.kind = "histogram" THEN P!SumNat(m0.cnt) ELSE m0.n) /\ Keep(S)
           [] E.what = "sum" -> R.t = "f" /\ Yes(On({"C03", "C04", "C06"}) => Is(m0, F(R.v))) /\ Keep(S)
           [] E.what = "buckets" -> R.t = "fc" /\ Yes(On({"C03", "C04"}) => BucketsOk(R.l, m0)) /\ Keep(S)
           [] E.what = "cum" -> R.t = "fc" /\ Yes(On({"C03", "C04"}) => CumulOk(R.l, m0)) /\ Keep(S)
           [] E.what = "quant" -> R.t \in {"fp", "none"} /\ Yes(On({"C03", "C06", "C07"}) => QuantOk(IF R.t = "none" THEN <<>> ELSE R.l, m0)) /\ Keep(S))
    [] E.op = "inc" -> /\ Plain(P!DoIncrement(S, E.h, E.n))
    [] E.op = "dec" -> Plain(P!DoAdd(S, E.h, N!Whole(-1)))
    [] E.op = "add" ->
         IF m0.kind = "counter"
           THEN IF P!CounterAccepts(F(E.v)) THEN Plain(P!DoCount(S, E.h, F(E.v)))
                ELSE (On({"C01"}) => R.t = "err" /\ R.k = "InvalidInput") /\ Keep(S)
           ELSE Plain(P!DoAdd(S, E.h, F(E.v)))
    [] E.op = "add_u64" -> Plain(P!DoCount(S, E.h, F(E.v)))
    [] E.op = "sub" -> Plain(P!DoAdd(S, E.h, N!Neg(F(E.v))))
    [] E.op = "set" -> Plain(P!DoSet(S, E.h, F(E.v)))
    [] E.op = "set_now" -> (On({"C02", "C03"}) => Unit) /\ Keep(P!DoSet(S, E.h, N!TNum(S.wall)))
    [] E.op = "observe" ->
         IF m0.kind = "histogram" /\ F(E.v).c = "nan" THEN (On({"C04"}) => R.t = "panic") /\ Keep(S)
         ELSE Plain(P!DoObserve(S, E.h, F(E.v)))
    [] E.op = "observe_many" -> Plain(P!DoObserveMany(S, E.h, F(E.v), E.n))
    [] E.op = "observe_all" -> Plain(P!DoObserveAll(S, E.h, Fs(E.vs)))       \* none of them NaN
    [] E.op = "track_begin" -> Unit /\ Keep(P!DoTrackBegin(S, E.h))
    [] E.op = "track_end" -> /\ (On({"C03"}) => IF E.panic THEN R.t = "panic" ELSE R.t = "tok" /\ R.n = E.tok)
                             /\ Keep(P!DoTrackEnd(S))
    [] E.op = "time_begin" -> Unit /\ Keep(P!DoTimeBegin(S, E.h))
    [] E.op = "time_end" -> /\ (On({"C03"}) => IF E.panic THEN R.t = "panic" ELSE R.t = "tok" /\ R.n = E.tok)
                            \* what a closure that panicked leaves behind is not specified
                            /\ Keep(P!DoTimeEnd(S)) \/ (E.panic /\ Keep(P!DoTimeAbort(S)))
    [] E.op = "ts_set" -> Plain(P!DoTs(S, E.h, P!TsNorm(E.v)))
    [] E.op = "ts_set_time" -> Plain(P!DoTs(S, E.h, P!TsNorm(E.v)))
    [] E.op = "ts_now" -> Plain(P!DoTs(S, E.h, P!TsOfWall(S.wall)))
    [] E.op = "ts_clear" -> Plain(P!DoTs(S, E.h, P!NoTs))
    [] E.op = "ts_get" -> R.t = "ts" /\ (On({"C15"}) => TsOk(R.a, m0.ts) /\ TsOk(R.b, m0.ts)) /\ Keep(S)
    [] E.op = "l_insert" ->
         IF P!LabelOk(m0.kind, StrCp(E.a)) THEN Plain(P!DoLabels(S, E.h, P!LInsert(m0.labels, E.a, E.v)))
         ELSE (On({"C12", "C13"}) => R.t = "err" /\ R.k = "InvalidInput") /\ Keep(S)
    [] E.op = "l_remove" -> Plain(P!DoLabels(S, E.h, P!LRemove(m0.labels, E.a)))
    [] E.op = "l_clear" -> Plain(P!DoLabels(S, E.h, {}))
    [] E.op = "l_iter" -> R.t = "labels" /\ (On({"C12"}) => ListingOk(R.l, m0.labels)) /\ Keep(S)
    [] E.op = "l_len" -> R.t = "len" /\ (On({"C12"}) => R.n = Cardinality(m0.labels) /\ R.e = (m0.labels = {})) /\ Keep(S)
    [] E.op = "l_get" -> R.t = "labels" /\ (On({"C12"}) => Len(R.l) = Cardinality(LabelSet(R.l)) /\ LabelSet(R.l) = {p \in m0.labels : p[1] = E.a}) /\ Keep(S)
    [] E.op = "label_new" ->
         IF P!LabelNameOk(StrCp(E.a)) THEN R.t = "label" /\ R.name = E.a /\ R.value = E.v /\ Keep(S)
         ELSE R.t = "err" /\ R.k = "InvalidInput" /\ Keep(S)
    [] E.op = "quantile_new" ->
         IF F(E.v).c # "nan" /\ N!Le(N!Zero, F(E.v)) /\ N!Le(F(E.v), N!One) THEN R.t = "q" /\ R.v = E.v /\ Keep(S)
         ELSE R.t = "err" /\ R.k = "InvalidInput" /\ Keep(S)
    [] E.op \in {"hold_iter", "hold_vec"} -> R.t = "labels" /\ ListingOk(R.l, m0.labels) /\ Keep(P!DoHold(S, E.it, E.h, Pairs(R.l), E.op = "hold_iter"))
    [] E.op = "hold_get" -> R.t = "labels" /\ LabelSet(R.l) = {p \in m0.labels : p[1] = E.a} /\ Keep(P!DoHold(S, E.it, E.h, Pairs(R.l), FALSE))
    [] E.op = "held_read" -> R.t = "labels" /\ Pairs(R.l) = S.held[E.it].items /\ Keep(S)
    [] E.op = "held_drop" -> Unit /\ Keep(P!DoRelease(S, E.it))
    [] E.op = "held_freed" -> R.t = "bool" /\ Yes(P!ReleasedOk(S, E.it, R.b)) /\ Keep(S)
    [] E.op = "advance" -> Unit /\ Keep(P!DoAdvance(S, E.d))
    [] E.op = "step_wall" -> Unit /\ Keep(P!DoWall(S, E.w))
    [] E.op = "gather" /\ R.t = "boom" ->
         Yes(P!PanicOk(S, E.g, R.calls)) /\ Keep(P!DoGatherPanic(S, E.g, ToSet(R.calls)))
    [] E.op = "gather" ->
         \E D \in SUBSET DOMAIN P!Own(S, E.g) :
         LET mem == P!GatheredWith(S, E.g, D)
         IN /\ R.t = "res"
            /\ Yes(On({"C08"}) => Bag(R.calls) = Bag(P!CalledWith(S, E.g, D)))
            /\ Yes(On(Presence) => FamiliesOk(R.fams, mem))
            /\ Yes(On({"C11"}) /\ R.text # 0 => TextsOk(R))
            /\ Yes(On({"C15"}) /\ R.text # 0 => TimestampsOk(R))
            \* E.perm names a group of gathers over the same metrics in different orders: same result, in the same order
            /\ Yes(On({"C09"}) /\ E.perm # 0 /\ E.perm \in DOMAIN perm => Shape(R.fams) = perm[E.perm])
            /\ perm' = IF E.perm # 0 THEN P!Put(perm, E.perm, Shape(R.fams)) ELSE perm
            /\ LET S1 == P!DoGather(S, E.g, D)
               IN IF E.keep = 0 THEN S' = S1
                  ELSE \E H \in P!Holdings(S, mem) : S' = P!DoKeep(S1, E.keep, H)
    [] E.op = "compare" -> R.t = "cmp" /\ Yes(On({"C19"}) => CompareOk(E, R)) /\ Keep(S)
    [] E.op = "drop_result" -> Plain(P!DoDropResult(S, E.keep))
    [] E.op = "into_vec" -> R.t = "vecs" /\ R.a = R.b /\ Keep(S)
    [] E.op = "display" ->
         \* the text of a single metric, and what its own methods say
         /\ R.t = "text"
         /\ Yes(On({"C11"}) => ItemsOk(Append(StrCp(R.s), X!LF), R.d.kind, R.d.full, <<R.d>>))
         /\ Keep(S)
    [] E.op = "display_labels" ->
         /\ R.t = "texts"
         /\ On({"C11"}) => /\ LabelsText(StrCp(R.all)) = [i \in DOMAIN R.l |-> <<StrCp(R.l[i][1]), StrCp(R.l[i][2])>>]
                           /\ Len(R.each) = Len(R.l)
                           /\ \A i \in DOMAIN R.l : LabelsText(<<123>> \o StrCp(R.each[i]) \o <<125>>) = <<<<StrCp(R.l[i][1]), StrCp(R.l[i][2])>>>>
         /\ Keep(S)
    [] OTHER -> Assert(FALSE, <<"unknown operation", E.op>>)

Init == /\ tr \in DOMAIN Traces
        /\ l = 1
        /\ S = [P!Init0 EXCEPT !.wall = Traces[tr].wall]
        /\ perm = <<>>
Next == l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

\* The furthest position reached in each log (needs -workers 1).
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Progress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Rejected == {i \in DOMAIN Traces : TLCGet(i) # Len(Traces[i].ev) + 1}
Accepted == /\ \A i \in Rejected : PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)
            /\ PrintT(<<"VALIDATED", Cardinality(DOMAIN Traces) - Cardinality(Rejected)>>)
            /\ Rejected = {}
=============================================================================
