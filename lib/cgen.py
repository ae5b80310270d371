"""Concurrent programs for the controlled driver: a sequential setup, 2 or 3 threads, a sequential final part."""
import random

from gen import F, INF, NAN, W

BIG = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512]
FRAC = [.5, .25, .125, .0625, 2.5, 4.25]


class C(W):
    def __init__(self, rng, pid):
        super().__init__(rng, pid)
        self.threads, self.final = [], []
        self.clock = [1_000_000_000_000, 1_000_000, 0]
        self.amount = list(BIG)
        rng.shuffle(self.amount)

    def fork(self, n):
        """From now on ops go to threads."""
        self.setup, self.ops = self.ops, []
        self.threads = [dict(own=[], gat=[], bld=[], ops=[]) for _ in range(n)]

    def on(self, t, o, **k):
        e = dict(op=o, **k)
        (self.threads[t]["ops"] if t is not None else self.final).append(e)
        return e

    def x(self):
        return self.amount.pop() if self.amount else 1024

    def program(self, explore, **kw):
        return dict(id=self.id, clock=self.clock, setup=self.setup, threads=self.threads, final=self.final, explore=explore, **kw)


def dfs(cap, bound=2):
    return dict(mode="dfs", bound=bound, cap=cap)


def rnd(runs, seed, mode="random"):
    return dict(mode=mode, runs=runs, seed=seed)


def plan(c, scale=1):
    """Small programs exhaustively with few preemptions, then deeper random schedules."""
    s = c.r.randrange(1 << 30)
    return c.program([dfs(250 * scale, 2), rnd(60 * scale, s), rnd(60 * scale, s, "pct")], most=40 * scale, each=3)


def spread(c, h, n):
    """A handle of the same metric for every thread; returns them (and one that stays with the main thread)."""
    return [c.clone(h) for _ in range(n)]


def own(c, t, *hs):
    c.threads[t]["own"] += hs


def final_reads(c, h):
    k = c.kind[h]
    for w in {"counter": ["value"], "gauge": ["value"], "histogram": ["count", "sum", "buckets", "cum"], "summary": ["count", "sum", "quant"]}[k]:
        c.on(None, "read", h=h, what=w)


def start(rng, pid, kinds, n, metrics=1, gather=False, **kw):
    """Metrics with a handle in each of n threads (and in the main thread)."""
    c = C(rng, pid)
    g = None
    regs = []
    if gather:
        g, regs = c.gatherer(1)
    hs = []
    for i in range(metrics):
        k = rng.choice(kinds)
        a = dict(kw.get(k, {}))
        if a.pop("bounds", None):
            a["bounds"] = [1.0, 4.0, 16.0][:rng.randint(1, 3)]
        hs.append(c.build(k, name=["m", "n", "o"][i % 3], regs=regs, **a))
    per = [spread(c, h, n) for h in hs]
    c.fork(n)
    for t in range(n):
        for p in per:
            own(c, t, p[t])
    return c, g, hs, per


def threads(rng):
    return 2 if rng.random() < .6 else 3


def c01(rng, pid):
    n = threads(rng)
    c, g, hs, per = start(rng, pid, ["counter"], n, gather=True)
    gt = rng.randrange(n)
    if rng.random() < .4:
        c.threads[gt]["gat"].append(g)
    else:
        gt = None
    for t in range(n):
        h = per[0][t]
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if t == gt and z < .5:
                c.on(t, "gather", g=g)
            elif z < .3:
                c.on(t, "read", h=h, what="value")
            elif z < .45:
                c.on(t, "inc", h=h)
            elif z < .6:
                c.on(t, "add_u64", h=h, u=str(c.x()))
            elif z < .85:
                c.on(t, "add", h=h, v=F(rng.choice([c.x(), c.x(), rng.choice(FRAC), 0.0])))
            elif z < .92:
                c.on(t, "add", h=h, v=F(rng.choice([-1.0, NAN, -.5])))
            else:
                c.on(t, "time", h=h, tok=7, panic=False, body=[dict(op="advance", ns=1953125 * 512 * rng.randint(1, 3))])
    final_reads(c, hs[0])
    c.on(None, "gather", g=g)
    return c


def c02(rng, pid):
    n = threads(rng)
    init = rng.choice([0.0, 0.0, 1000.0, -3.0])
    c, g, hs, per = start(rng, pid, ["gauge"], n, gather=True, gauge=dict(init=init))
    gt = rng.randrange(n) if rng.random() < .3 else None
    if gt is not None:
        c.threads[gt]["gat"].append(g)
    for t in range(n):
        h = per[0][t]
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if t == gt and z < .4:
                c.on(t, "gather", g=g)
            elif z < .3:
                c.on(t, "read", h=h, what="value")
            elif z < .4:
                c.on(t, "inc", h=h)
            elif z < .5:
                c.on(t, "dec", h=h)
            elif z < .65:
                c.on(t, "add", h=h, v=F(rng.choice([c.x(), rng.choice(FRAC)])))
            elif z < .8:
                c.on(t, "sub", h=h, v=F(rng.choice([c.x(), rng.choice(FRAC)])))
            else:
                c.on(t, "set", h=h, v=F(rng.choice([2048.0 * rng.randint(1, 9), -4096.0 * rng.randint(1, 9), 0.0])))
    final_reads(c, hs[0])
    c.on(None, "gather", g=g)
    return c


def c03(rng, pid, boom=.3):
    n = threads(rng)
    c, g, hs, per = start(rng, pid, ["gauge", "gauge", "gauge", "counter", "histogram", "summary"], n, metrics=rng.randint(1, 2),
                          summary=dict(qs=[0.0, 1.0], win=10 ** 12), histogram=dict(bounds=True))

    def body(t, depth):
        out = []
        for _ in range(rng.randint(0, 2)):
            i = rng.randrange(len(hs))
            h, k = per[i][t], c.kind[hs[i]]
            z = rng.random()
            if z < .35:
                out.append(dict(op="read", h=h, what="value" if k in ("gauge", "counter") else rng.choice(["count", "sum"])))
            elif z < .6 or depth > 1:
                out.append(dict(op="advance", ns=1953125 * 512 * rng.randint(1, 3)))
            else:
                out.append(scope(t, depth + 1))
        return out

    def scope(t, depth):
        i = rng.randrange(len(hs))
        h, k = per[i][t], c.kind[hs[i]]
        o = "track" if k == "gauge" and rng.random() < .75 else "time"
        return dict(op=o, h=h, tok=rng.randint(1, 99), panic=o == "track" and rng.random() < boom, body=body(t, depth))
    for t in range(n):
        for _ in range(rng.randint(1, 2)):
            c.threads[t]["ops"].append(scope(t, 0) if rng.random() < .8 else dict(op="read", h=per[0][t], what="value" if c.kind[hs[0]] in ("gauge", "counter") else "count"))
    for h in hs:
        final_reads(c, h)
    return c


def c21(rng, pid):
    """closures that panic, and histograms given NaN, while other threads go on"""
    c = c03(rng, pid, .7)
    for t in c.threads:
        for k in range(2):
            for h in t["own"]:
                if c.kind[h] == "histogram" and rng.random() < .5:
                    t["ops"].insert(rng.randint(0, len(t["ops"])), dict(op="observe", h=h, v=F(NAN if rng.random() < .6 else 1.0)))
    return c


def obs(rng):
    return F(rng.choice([.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, -1.0, 0.25]))


def c05(rng, pid):
    n = threads(rng)
    c, g, hs, per = start(rng, pid, ["histogram", "summary"], n, gather=True, summary=dict(qs=[0.0, .5, 1.0], win=10 ** 12), histogram=dict(bounds=True))
    k = c.kind[hs[0]]
    what = ["count", "sum", "buckets", "cum"] if k == "histogram" else ["count", "sum", "quant"]
    gt = rng.randrange(n) if rng.random() < .3 else None
    if gt is not None:
        c.threads[gt]["gat"].append(g)
    for t in range(n):
        h = per[0][t]
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if t == gt and z < .5:
                c.on(t, "gather", g=g)
            elif z < .45:
                c.on(t, "read", h=h, what=rng.choice(what))
            else:
                c.on(t, "observe", h=h, v=obs(rng))
    final_reads(c, hs[0])
    c.on(None, "gather", g=g)
    return c


def c06(rng, pid):
    n = threads(rng)
    win = 10 ** 9 * rng.choice([1, 2, 4])
    c, g, hs, per = start(rng, pid, ["summary"], n, summary=dict(qs=[0.0, .25, .5, .75, 1.0], win=win))
    for i in range(rng.randint(0, 2)):
        c.setup.append(dict(op="observe", h=hs[0], v=obs(rng)))
        if rng.random() < .5:
            c.setup.append(dict(op="advance", ns=win // rng.choice([1, 2, 4])))
    for t in range(n):
        h = per[0][t]
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if z < .25:
                c.on(t, "read", h=h, what=rng.choice(["quant", "quant", "count"]))
            elif z < .6:
                c.on(t, "advance", ns=rng.choice([win, win // 2, win + 1, win // 4, 2 * win]))
            else:
                c.on(t, "observe", h=h, v=obs(rng))
    c.on(None, "read", h=hs[0], what="quant")
    c.on(None, "advance", ns=rng.choice([0, win // 2, win]))
    final_reads(c, hs[0])
    return c


LN = ["a", "b", "c", "d"]


def c12(rng, pid, hold=False):
    n = threads(rng)
    c, g, hs, per = start(rng, pid, ["counter", "gauge", "histogram", "summary"], n,
                          **{k: dict(labels=[(a, "0") for a in rng.sample(LN, rng.randint(0, 2))]) for k in ["counter", "gauge", "histogram", "summary"]})
    v = 0
    for t in range(n):
        h = per[0][t]
        held = []
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            v += 1
            if hold and z < .3:
                it = c.fresh()
                c.on(t, "hold_iter", h=h, it=it)
                held.append(it)
            elif hold and held and z < .5:
                c.on(t, "held_read", it=rng.choice(held))
            elif z < .2:
                c.on(t, "l_iter", h=h)
            elif z < .28:
                c.on(t, rng.choice(["l_len", "l_get"]), h=h, a=rng.choice(LN))
            elif z < .65:
                c.on(t, "l_insert", h=h, a=rng.choice(LN), v=str(v))
            elif z < .7:
                c.on(t, "l_insert", h=h, a=rng.choice(["__x", "le", "quantile", "0"]), v=str(v))
            elif z < .9:
                c.on(t, "l_remove", h=h, a=rng.choice(LN))
            else:
                c.on(t, "l_clear", h=h)
        for it in held:
            c.on(t, "held_read", it=it)
    c.on(None, "l_iter", h=hs[0])
    for a in LN:
        c.on(None, "l_get", h=hs[0], a=a)
    return c


def c18(rng, pid):
    return c12(rng, pid, hold=True)


def c15(rng, pid):
    n = threads(rng)
    c, g, hs, per = start(rng, pid, ["counter", "gauge", "histogram", "summary"], n, gather=True)
    gt = rng.randrange(n)
    c.threads[gt]["gat"].append(g)
    for t in range(n):
        h = per[0][t]
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if t == gt and z < .4:
                c.on(t, "gather", g=g)
            elif z < .4:
                c.on(t, "ts_get", h=h)
            elif z < .8:
                c.on(t, "ts_set", h=h, v="i:%d" % rng.choice([0, 1, -1, 5, 2 ** 40 + 1, -2 ** 40, 2 ** 32, rng.randrange(10 ** 6)]))
            elif z < .9:
                c.on(t, "ts_clear", h=h)
            else:
                c.on(t, "ts_set_time", h=h, s=rng.randrange(10 ** 6), ns=rng.randrange(10 ** 9))
    c.on(None, "ts_get", h=hs[0])
    c.on(None, "gather", g=g)
    return c


def c16(rng, pid, kinds=("counter", "counter", "gauge", "histogram", "summary"), values=True):
    """Thread 0 gathers; the others update, register, drop and relabel."""
    n = 2 if rng.random() < .7 else 3
    dflt = rng.random() < .15
    c = C(rng, pid)
    g, regs = c.gatherer(1)
    r = regs[0]
    c.op("clone_registry", r=c.fresh(), **{"from": r})
    r2 = c.n
    kw = dict(summary=dict(qs=[0.0, 1.0], win=10 ** 12), histogram=dict(bounds=[1.0, 4.0]))
    relabel = rng.random() < .3
    hs, per = [], []
    names = ["m"] if rng.random() < .5 else ["m", "n"]
    for i in range(rng.randint(1, 3)):
        k = rng.choice(kinds)
        lab = [("i", str(rng.randint(0, 1)))] if rng.random() < .6 else []
        registered = rng.random() < .75
        h = c.build(k, name=rng.choice(names), regs=[r] if registered else [], labels=lab, **kw.get(k, {}))
        hs.append((h, registered))
        if k == "gauge" and rng.random() < .7:
            c.op("set", h=h, v=F(c.x() * 1024))
    scripts = []
    for _ in range(rng.choice([0, 0, 1])):
        cid = c.fresh()
        sc = [rng.choice([[], [], [h for h, reg in hs if not reg][:1]]) for _ in range(rng.randint(0, 3))]
        sc = [[] if s is None else s for s in sc]
        if all(x not in s for s in sc for x, reg in hs if reg):
            c.op("register_script", r=r, c=cid, script=sc)
    if rng.random() < .3:
        c.op("gather", g=g)
    inscript = {h for o in c.ops if o["op"] == "register_script" for s in o["script"] for h in s}
    builders = {}
    for t in range(1, n):
        if rng.random() < .4:
            b = c.fresh()
            k = rng.choice(kinds)
            e = c.op("bld", b=b, kind=k, name=rng.choice(names), win=10 ** 12)
            c.op("bset", b=b, what="registry", r=r2)
            if k == "summary":
                c.op("bset", b=b, what="quantile", v=F(0.5))
            builders[t] = b
    per = []
    main = []
    for h, reg in hs:
        # some metrics have all their handles in the threads
        ps = [None] * n
        ts = [t for t in range(1, n) if rng.random() < .8]
        for j, t in enumerate(ts):
            ps[t] = c.clone(h)
        if not (ts and rng.random() < .4):
            main.append(h)
        elif h not in inscript:
            c.drop(h)
        else:
            main.append(h)
        per.append(ps)
    c.fork(n)
    c.threads[0]["gat"].append(g)
    for t, b in builders.items():
        c.threads[t]["bld"].append(b)
    for ps in per:
        for t in range(n):
            if ps[t]:
                own(c, t, ps[t])
    for _ in range(rng.randint(1, 2)):
        c.on(0, "gather", g=g)
    registered = [reg for _, reg in hs]
    for t in range(1, n):
        mine = [(i, per[i][t]) for i in range(len(hs)) if per[i][t]]
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if t in builders and z < .4:
                c.on(t, "fin", b=builders.pop(t), h=c.fresh())
                continue
            if z < .25 and mine:
                i, h = rng.choice(mine)
                if not registered[i] and h not in inscript and hs[i][0] not in inscript:
                    c.on(t, "register", r=r2, h=h)
                    registered[i] = True
                    continue
            if z < .4 and mine:
                i, h = mine.pop(rng.randrange(len(mine)))
                c.on(t, "drop", h=h)
                continue
            if z < .5:
                cid = c.fresh()
                c.on(t, "register_script", r=r2, c=cid, script=[[] for _ in range(rng.randint(0, 2))])
                continue
            if not mine:
                continue
            i, h = rng.choice(mine)
            k = c.kind[hs[i][0]]
            if relabel and z < .75:
                if rng.random() < .7:
                    c.on(t, "l_insert", h=h, a="i", v=str(rng.randint(0, 3)))
                else:
                    c.on(t, "l_remove", h=h, a="i")
            elif rng.random() < .15:
                c.on(t, "ts_set", h=h, v="i:%d" % rng.randrange(100))
            elif k == "counter":
                c.on(t, "add_u64", h=h, u=str(c.x()))
            elif k == "gauge":
                c.on(t, rng.choice(["set", "add", "sub"]), h=h, v=F(c.x()))
            else:
                c.on(t, "observe", h=h, v=obs(rng))
    c.on(None, "gather", g=g)
    c.on(None, "gather", g=g)
    return c


def c08(rng, pid):
    """Thread 0 gathers; the others register collectors, build metrics and drop them."""
    n = 2 if rng.random() < .75 else 3
    c = C(rng, pid)
    g, regs = c.gatherer(1)
    r = regs[0]
    r2 = c.fresh()
    c.op("clone_registry", r=r2, **{"from": r})
    kinds = ["counter", "gauge"] + (["histogram", "summary"] if rng.random() < .3 else [])
    kw = dict(summary=dict(qs=[.5], win=10 ** 12), histogram=dict(bounds=[1.0]))

    def script():
        return [[] for _ in range(rng.randint(0, 3))]
    hs = []
    for i in range(rng.randint(0, 3)):
        k = rng.choice(kinds)
        registered = rng.random() < .7
        hs.append([c.build(k, name="m%d" % (i if rng.random() < .6 else 0), regs=[r] if registered else [], **kw.get(k, {})), registered])
        if rng.random() < .5:
            c.op("register_script", r=rng.choice([r, r2]), c=c.fresh(), script=script())
    if rng.random() < .5:
        c.op("gather", g=g)
    builders = {}
    for t in range(1, n):
        if rng.random() < .5:
            b = c.fresh()
            k = rng.choice(kinds)
            c.op("bld", b=b, kind=k, name="b%d" % t, win=10 ** 12)
            for _ in range(rng.choice([1, 1, 2])):
                c.op("bset", b=b, what="registry", r=rng.choice([r, r2]))
            builders[t] = b
    mine = {t: [] for t in range(n)}
    for h, registered in hs:
        t = rng.randrange(1, n)
        if rng.random() < .7:
            # its handles: all in one thread, in two, or one with the main thread
            z = rng.random()
            x = c.clone(h)
            mine[t].append([x, registered])
            if z < .3:
                mine[rng.randrange(1, n)].append([c.clone(h), True])
            if z < .7:
                c.drop(h)
    c.fork(n)
    c.threads[0]["gat"].append(g)
    for t, b in builders.items():
        c.threads[t]["bld"].append(b)
    for t in mine:
        own(c, t, *[x[0] for x in mine[t]])
    for _ in range(rng.choice([1, 1, 2])):
        c.on(0, "gather", g=g)
    for t in range(1, n):
        for _ in range(rng.randint(1, 3)):
            z = rng.random()
            if t in builders and z < .4:
                c.on(t, "fin", b=builders.pop(t), h=c.fresh())
            elif mine[t] and z < .6:
                x = rng.choice(mine[t])
                if not x[1] and z < .4:
                    x[1] = True
                    c.on(t, "register", r=rng.choice([r, r2]), h=x[0])
                else:
                    mine[t].remove(x)
                    c.on(t, "drop", h=x[0])
            else:
                c.on(t, "register_script", r=rng.choice([r, r2]), c=c.fresh(), script=script())
    c.on(None, "gather", g=g)
    c.on(None, "gather", g=g)
    return c


def c20(rng, pid):
    """Every operation against every other one (judged by Total only)."""
    n = 2 if rng.random() < .7 else 3
    c = C(rng, pid)
    g, regs = c.gatherer(1)
    r2 = c.fresh()
    c.op("clone_registry", r=r2, **{"from": regs[0]})
    hs = []
    for i in range(rng.randint(1, 2)):
        k = rng.choice(["counter", "gauge", "histogram", "summary"])
        kw = dict(summary=dict(qs=[0.0, .5, 1.0], win=rng.choice([0, 10 ** 9])), histogram=dict(bounds=[1.0, 4.0])).get(k, {})
        hs.append(c.build(k, name=rng.choice("mn"), regs=regs, labels=rng.choice([[], [("a", "x")], [("a", "x"), ("b", "y")]]), **kw))
    per = [spread(c, h, n) for h in hs]
    holder = rng.randrange(n) if rng.random() < .7 else None
    c.fork(n)
    for t in range(n):
        for p in per:
            own(c, t, p[t])
    if holder is not None:
        c.threads[holder]["gat"].append(g)

    def call(t, depth=0):
        i = rng.randrange(len(hs))
        h, k, z = per[i][t], c.kind[hs[i]], rng.random()
        if t == holder and rng.random() < .3:
            return dict(op="gather", g=g, text=rng.random() < .5)
        if z < .3:
            return dict(op=rng.choice(["display", "display", "describe", "display_labels"]), h=h)
        if z < .52:
            a = rng.choice(["a", "b", "c"])
            return rng.choice([dict(op="l_insert", h=h, a=a, v="z"), dict(op="l_remove", h=h, a=a), dict(op="l_clear", h=h), dict(op="l_get", h=h, a=a), dict(op="l_iter", h=h), dict(op="l_len", h=h)])
        if z < .62:
            return rng.choice([dict(op="ts_set", h=h, v="i:5"), dict(op="ts_now", h=h), dict(op="ts_clear", h=h), dict(op="ts_get", h=h)])
        if z < .7:
            return dict(op="register", h=h, r=r2)
        if z < .8 and depth < 2:
            return dict(op="track" if k == "gauge" and rng.random() < .6 else "time", h=h, tok=1, panic=rng.random() < .4, body=[call(t, depth + 1) for _ in range(rng.randint(0, 2))])
        if k in ("histogram", "summary"):
            return dict(op="observe", h=h, v=obs(rng))
        if k == "counter":
            return rng.choice([dict(op="inc", h=h, n=1), dict(op="add", h=h, v=F(rng.choice([.5, 1.0, -1.0, INF]))), dict(op="add_u64", h=h, u=str(2 ** 64 - 1))])
        return rng.choice([dict(op="inc", h=h, n=1), dict(op="dec", h=h, n=1), dict(op="set", h=h, v=F(rng.choice([1.0, NAN, INF]))), dict(op="add", h=h, v=F(rng.choice([-0.0, .5, INF])))])
    for t in range(n):
        for _ in range(rng.randint(1, 3)):
            c.threads[t]["ops"].append(call(t))
    for h in hs:
        c.on(None, "describe", h=h)
    c.on(None, "gather", g=g)
    return c


# ---- Every program of two threads with up to two operations each, from a small alphabet (independent of the seed)

def alphabet(prop):
    """kind of metric -> operations: functions of the program, the thread, its handle and an amount of its own"""
    def o(op, **k):
        return lambda c, t, h, x, g: c.on(t, op, h=h, **k)

    def amount(what, f):
        return lambda c, t, h, x, g: c.on(t, what, h=h, **f(x))

    def gather(c, t, h, x, g):
        return c.on(t, "gather", g=g)

    def read(w):
        return o("read", what=w)

    def script(c, t, h, x, g):
        return c.on(t, "register_script", r=c.reg, c=c.fresh(), script=[[]])

    def fin(c, t, h, x, g):
        return c.on(t, "fin", b=c.spare.pop(), h=c.fresh())

    add = amount("add", lambda x: dict(v=F(x)))
    half = amount("add", lambda x: dict(v=F(x + .5)))
    u64 = amount("add_u64", lambda x: dict(u=str(x)))
    low, high = amount("observe", lambda x: dict(v=F(1 / 4 / x))), amount("observe", lambda x: dict(v=F(2. + x)))
    body = lambda what: lambda c, t, h, x, g: c.on(t, what, h=h, tok=x, panic=False, body=[dict(op="advance", ns=1953125 * 512 * x)])
    ins = lambda a: amount("l_insert", lambda x: dict(a=a, v=str(x)))
    rem = lambda a: o("l_remove", a=a)
    if prop == "C01":
        return dict(counter=[o("inc"), u64, half, read("value"), body("time"), gather])
    if prop == "C02":
        return dict(gauge=[o("inc"), o("dec"), half, amount("set", lambda x: dict(v=F(1024. * x))), read("value"), gather])
    if prop == "C03":
        return dict(gauge=[lambda c, t, h, x, g: c.on(t, "track", h=h, tok=x, panic=False, body=[dict(op="read", h=h, what="value")]), body("time"), read("value"), half],
                    counter=[body("time"), read("value"), half], histogram=[body("time"), read("sum"), read("count"), high], summary=[body("time"), read("sum"), read("count"), high])
    if prop == "C05":
        return dict(histogram=[low, high, read("count"), read("sum"), read("buckets"), read("cum"), gather], summary=[low, high, read("count"), read("sum"), read("quant"), gather])
    if prop == "C12":
        return dict(counter=[ins("a"), ins("b"), rem("a"), o("l_clear"), o("l_iter"), o("l_get", a="a"), o("l_len")])
    if prop == "C15":
        return dict(gauge=[amount("ts_set", lambda x: dict(v="i:%d" % x)), amount("ts_set", lambda x: dict(v="i:-%d" % x)), o("ts_clear"), o("ts_get"), gather],
                    histogram=[amount("ts_set", lambda x: dict(v="i:%d" % x)), o("ts_clear"), gather])
    if prop == "C16":
        return dict(counter=[fin, script, u64, half, o("drop"), ins("a"), rem("i"), o("l_clear"), amount("ts_set", lambda x: dict(v="i:%d" % x))],
                    histogram=[low, high, o("drop"), ins("a"), o("l_clear")], summary=[low, o("drop"), ins("a")], gauge=[amount("set", lambda x: dict(v=F(x))), half, o("drop")])


def systematic(prop, scale=1):
    """(size, program) pairs"""
    out = []
    gathers = prop == "C16"
    for kind, ops in sorted(alphabet(prop).items()):
        k = range(len(ops))
        seqs = [(a,) for a in k] + [(a, b) for a in k for b in k]
        pairs = [("g", b) for b in seqs] + [("gg", b) for b in seqs] if gathers else [(a, b) for i, a in enumerate(seqs) for b in seqs[i:]]
        for a, b in pairs:
            c = C(random.Random(0), "sys-%s-%s-%s" % (kind, "".join(map(str, a)), "".join(map(str, b))))
            g, regs = c.gatherer(1)
            c.reg = regs[0]
            kw = dict(summary=dict(qs=[0.0, 1.0], win=10 ** 12), histogram=dict(bounds=[1.0])).get(kind, {})
            h = c.build(kind, name="m", regs=regs, labels=[("i", "0")], **kw)
            c.spare = []
            if gathers:
                # a second metric of the same name, for the gather to merge or not
                c.build(kind, name="m", regs=regs, labels=[("i", "1")], **kw)
                for n in (1, 2):
                    e = c.fresh()
                    c.op("bld", b=e, kind=kind, name="m", win=10 ** 12)
                    c.op("bset", b=e, what="registry", r=c.reg)
                    c.spare.append(e)
                c.op("gather", g=g)
            hs = [c.clone(h) for _ in range(1 if gathers else 2)]
            if gathers and any(ops[x](C2(), 1, 0, 1, 0) == "drop" for x in b):
                c.drop(h)            # the thread has the last handle
            spare = list(c.spare)
            c.fork(2)
            if gathers:
                c.threads[0]["gat"].append(g)
                own(c, 1, hs[0])
                c.threads[1]["bld"] += spare
                for _ in a:
                    c.on(0, "gather", g=g)
            else:
                own(c, 0, hs[0])
                own(c, 1, hs[1])
            x = 1
            for t, seq in enumerate((() if gathers else a, b)):
                for n, z in enumerate(seq):
                    ops[z](c, t, hs[0 if gathers else t], x, g)
                    x *= 2
            names = [[e["op"] for e in t["ops"]] for t in c.threads]
            if "drop" in names[1] and names[1].index("drop") < len(names[1]) - 1 and names[1][-1] not in ("fin", "register_script"):
                continue             # nothing can be done with it any more
            both = [t for t in (0, 1) if "gather" in names[t]]
            if not gathers:
                if len(both) == 2:
                    continue         # one gatherer
                for t in both:
                    c.threads[t]["gat"].append(g)
            if not gathers and prop in ("C01", "C02", "C03", "C05"):
                final_reads(c, h)
            if prop in ("C12", "C15"):
                c.on(None, "l_iter" if prop == "C12" else "ts_get", h=h)
            if prop != "C12":
                c.on(None, "gather", g=g)
            out.append((len(a) + len(b), c.program([dfs(300 * scale, 3), rnd(20 * scale, 1)], most=40 * scale, each=3)))
    return out


class C2:
    """Tells which operation it would be."""
    spare = [0, 0]
    reg = 0

    def __init__(self):
        self.spare = [0, 0]

    def fresh(self):
        return 0

    def on(self, t, o, **k):
        return o


def make(fn, seed, n, scale=1, **kw):
    name = fn.__name__
    return [plan(fn(random.Random("%s-%d-%d" % (name, seed, i)), "c%s-%d-%d" % (name, seed, i), **kw), scale) for i in range(n)]
