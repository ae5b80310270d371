"""The alphabets of calls whose every combination TLC explores (Gen.tla): per property some small worlds, each with the
calls that come first, those that may follow in any order, and those that look at the outcome."""
import json
import math

from enc import f2bits as F

INF, NAN = math.inf, math.nan
KINDS = ["counter", "gauge", "histogram", "summary"]


def op(o, **k):
    return dict(op=o, **k)


def metric(b, h, kind, name="m", win=10 ** 10, sets=(), regs=(), **k):
    return ([op("bld", b=b, kind=kind, name=name, win=win, **k)] + [op("bset", b=b, what=w, **d) for w, d in sets]
            + [op("bset", b=b, what="registry", r=r) for r in regs] + [op("fin", b=b, h=h)])


def label(a, v):
    return ("label", dict(a=a, v=v))


def reads(*hs):
    return [op("describe", h=h) for h in hs]


def world(name, setup, alphabet, quick, thorough, suffix=(), initial=0, clock=(10 ** 12, 0, 0)):
    return dict(name=name, setup=setup, alphabet=alphabet, depth=dict(quick=quick, thorough=thorough), suffix=list(suffix), initial=initial, clock=list(clock))


def num(kind, h):
    """calls that change the number of a metric"""
    if kind == "counter":
        return [op("inc", h=h, n=1), op("add", h=h, v=F(0.5)), op("add", h=h, v=F(2.0))]
    if kind == "gauge":
        return [op("inc", h=h, n=1), op("set", h=h, v=F(2.5)), op("sub", h=h, v=F(1.0))]
    return [op("observe", h=h, v=F(0.5)), op("observe", h=h, v=F(2.0))]


def c01():
    two = metric(1, 1, "counter") + [op("clone", h=1, to=2)]
    amounts = [op("inc", h=1, n=1), op("add_u64", h=2, u=str(2 ** 53 + 1)), op("add_u64", h=1, u=str(2 ** 64 - 1))] + [
        op("add", h=h, v=F(v)) for h, v in [(1, 0.0), (2, -0.0), (1, 0.25), (2, 3.0), (1, 2.0 ** 63), (2, 2.0 ** 64), (1, -1.0), (2, NAN), (1, INF), (2, -INF), (1, 5e-324)]]
    yield world("amounts", two, amounts, 3, 4, reads(1, 2))
    yield world("read-between", metric(1, 1, "counter"),
                [op("inc", h=1, n=1), op("add", h=1, v=F(0.1)), op("add", h=1, v=F(2.0 ** 53)), op("add_u64", h=1, u="1"), op("add", h=1, v=F(-0.5)), op("read", h=1, what="value")], 4, 6, reads(1))
    yield world("timed", metric(1, 1, "counter"), [op("time_begin", h=1), op("time_end", tok=1, panic=False), op("advance", ns=1_500_000_000), op("inc", h=1, n=2)], 6, 8, reads(1))


def c02():
    for i, init in enumerate([None, 2.5, -0.0]):
        yield world("updates-%d" % i, metric(1, 1, "gauge", sets=[("initial", dict(v=F(init)))] if init is not None else []) + [op("clone", h=1, to=2)],
                    [op("inc", h=1, n=1), op("dec", h=2), op("add", h=1, v=F(0.1)), op("sub", h=2, v=F(0.3)), op("set", h=1, v=F(7.0)), op("set", h=2, v=F(-0.5)),
                     op("add", h=1, v=F(-2.0)), op("set_now", h=1), op("read", h=2, what="value")], 3, 4, reads(1, 2), initial=0 if init is None else 1, clock=(10 ** 12, 1_500_000_000, 250_000_000))
    yield world("special", metric(1, 1, "gauge"), [op(o, h=1, v=F(v)) for o in ("set", "add", "sub") for v in (INF, -INF, NAN, 1e308, 1.0)] + [op("inc", h=1, n=1)], 2, 4, reads(1))


def c03():
    g = metric(1, 1, "gauge") + [op("clone", h=1, to=2)]
    yield world("nested", g, [op("track_begin", h=1), op("track_begin", h=2), op("track_end", tok=1, panic=False), op("track_end", tok=2, panic=True),
                              op("inc", h=1, n=1), op("set", h=2, v=F(5.0)), op("read", h=2, what="value")], 5, 7, reads(1))
    for kind in KINDS:
        m = metric(1, 1, kind, sets=[("buckets", dict(v=[F(0.5), F(1.5)]))] if kind == "histogram" else [("quantile", dict(v=F(.5)))] if kind == "summary" else [])
        yield world("timed-" + kind, m, [op("time_begin", h=1), op("time_end", tok=3, panic=False), op("advance", ns=500_000_000), op("advance", ns=1), op("step_wall", s=5, ns=0)], 5, 8, reads(1))
    yield world("both", g, [op("track_begin", h=1), op("time_begin", h=2), op("track_end", tok=1, panic=False), op("time_end", tok=2, panic=False), op("advance", ns=10 ** 9)], 6, 8, reads(1))


def c04():
    vals = [-1.0, 0.0, -0.0, 0.5, 1.0, 1.5, INF, -INF, NAN]
    look = [op("read", h=1, what=w) for w in ("buckets", "cum", "count", "sum")]
    for i, bs in enumerate([[], [0.0, 1.0], [1.0, -1.0, 1.0], [-INF, 0.0], [INF, 1.0], [1.0, math.nextafter(1.0, 2)], [-0.0, 0.0]]):
        yield world("layout-%d" % i, metric(1, 1, "histogram", sets=[("buckets", dict(v=[F(b) for b in bs]))]), [op("observe", h=1, v=F(v)) for v in vals], 2, 3, look + reads(1))
    yield world("one-by-one", [op("bld", b=1, kind="histogram", name="m", win=1)],
                [op("bset", b=1, what="bucket", v=F(v)) for v in (1.0, -1.0, 0.1, INF, NAN)] + [op("fin", b=1, h=h) for h in (1, 2)] + [op("observe", h=1, v=F(0.05)), op("observe", h=2, v=F(1.0))], 5, 6)
    yield world("computed", metric(1, 1, "histogram", lin=[F(-1.0), F(1.0), 4]) + metric(2, 2, "histogram", exp=[F(0.5), F(2.0), 4]),
                [op("observe", h=h, v=F(v)) for h in (1, 2) for v in (-1.0, 0.0, 1.5, 2.5, 9.0)], 2, 4, reads(1, 2))


def c06():
    m = metric(1, 1, "summary", win=1_000_000_000, sets=[("quantile", dict(v=F(q))) for q in (0.0, 0.5, 1.0)]) + [op("clone", h=1, to=2)]
    yield world("window", m, [op("observe", h=1, v=F(1.0)), op("observe", h=2, v=F(-2.0)), op("advance", ns=500_000_000), op("advance", ns=500_000_001), op("read", h=1, what="quant")], 5, 7,
                [op("read", h=2, what=w) for w in ("quant", "count", "sum")])
    yield world("clocks", m, [op("observe", h=1, v=F(1.0)), op("advance", ns=1_000_000_000), op("advance", ns=1), op("step_wall", s=0, ns=0), op("step_wall", s=2_000_000_000, ns=0), op("read", h=1, what="quant")], 5, 7,
                [op("read", h=2, what=w) for w in ("quant", "count", "sum")])
    z = metric(1, 1, "summary", win=0, sets=[("quantile", dict(v=F(0.5)))])
    yield world("no-window", z, [op("observe", h=1, v=F(1.0)), op("advance", ns=1), op("advance", ns=0), op("read", h=1, what="quant"), op("time_begin", h=1), op("time_end", tok=1, panic=False)], 5, 6,
                [op("read", h=1, what=w) for w in ("quant", "count", "sum")])


def c07():
    for i, qs in enumerate([[0.0, 1.0], [0.5], [0.25, 0.75, 0.5], [0.1, 0.9, 1.0 / 3], []]):
        m = metric(1, 1, "summary", sets=[("quantile", dict(v=F(q))) for q in qs])
        yield world("samples-%d" % i, m, [op("observe", h=1, v=F(v)) for v in (1.0, 2.0, -1.0, 2.0 ** 70, NAN, -INF, INF)], 3, 5, [op("read", h=1, what="quant")])
    two = [op("gatherer", g=1), op("registry", r=1, g=1)]
    for k, (qs, l) in enumerate([([0.5, 1.0], "x"), ([0.5, 0.25], "x"), ([0.0], "x"), ([0.5], "y")]):
        two += metric(k + 1, k + 1, "summary", sets=[label("a", l)] + [("quantile", dict(v=F(q))) for q in qs], regs=[1])
    yield world("aggregate", two, [op("observe", h=h, v=F(v)) for h in (1, 2, 3, 4) for v in (1.0, 3.0)] + [op("observe", h=2, v=F(NAN)), op("drop", h=3), op("gather", g=1)], 3, 4, [op("gather", g=1)])


def c08():
    base = [op("gatherer", g=1), op("registry", r=1, g=1), op("gatherer", g=2), op("registry", r=2, g=2)] + metric(1, 1, "counter", "a", regs=[1]) + metric(2, 2, "gauge", "b", regs=[1, 2])
    end = [op("gather", g=1), op("gather", g=2), op("gather", g=1)]
    yield world("lives", base, [op("clone", h=1, to=11), op("drop", h=1), op("drop", h=11), op("drop", h=2), op("gather", g=1), op("gather", g=1, keep=1), op("gather", g=2, keep=2),
                                op("drop_result", keep=1), op("register", r=2, h=1), op("register", r=1, h=2)], 4, 6, end)
    yield world("scripts", base, [op("register_script", r=1, c=1, script=[[1], [1, 2]]), op("register_script", r=1, c=2, script=[]), op("register_script", r=1, c=3, script=[[], None]),
                                  op("register_script", r=2, c=4, script=[[2, 2], []]), op("gather", g=1), op("gather", g=2), op("clone", h=1, to=12)], 4, 6, end)
    yield world("nested", base, [op("register_script", r=1, c=1, script=[[1], []], acts=[[dict(r=1, c=11, script=[[], [2]])], [dict(r=2, c=12, script=[[1]])]]),
                                 op("register_script", r=2, c=2, script=[], acts=[[dict(r=1, h=2), dict(r=2, h=2)]]), op("register_script", r=1, c=3, script=[[], []], acts=[[dict(r=1, c=13, script=[])], [dict(r=1, c=14, script=[])]]),
                                 op("gather", g=1), op("gather", g=2), op("clone", h=1, to=12)], 4, 6, end)
    yield world("registries", base[:4] + metric(1, 1, "counter", "a"),
                [op("clone_registry", r=3, **{"from": 1}), op("registry", r=4, g=2), op("register", r=1, h=1), op("register", r=3, h=1), op("register", r=4, h=1), op("drop_gatherer", g=1), op("gather", g=1),
                 op("new", h=2, kind="gauge", name="b"), op("register", r=2, h=2), op("drop", h=2)], 4, 6)
    yield world("end", base[:4] + metric(1, 1, "counter", "a"), [op("register_script", r=1, c=c, script=s) for c, s in [(1, []), (2, [[]]), (3, [[1], []]), (4, [[1]]), (5, [None])]] + [op("gather", g=1)], 5, 6,
                [op("gather", g=1), op("gather", g=1)])


def c09():
    base = [op("gatherer", g=1), op("registry", r=1, g=1)]
    nh = [0]

    def m(kind, name, ls=(), ns=None, sub=None, help=None, **k):
        nh[0] += 1
        i = nh[0]
        s = [label(a, v) for a, v in ls] + [("namespace", dict(v=ns))] * (ns is not None) + [("subsystem", dict(v=sub))] * (sub is not None) + [("help", dict(v=help))] * (help is not None)
        return metric(i, i, kind, name, sets=s, **k)
    ms = m("counter", "a_b", [("l", "x")]) + m("counter", "b", [("l", "x")], ns="a") + m("counter", "b", [("l", "y")], sub="a") + m("gauge", "a_b", [("l", "x")]) + m("counter", "a", [("l", "x")]) + m("counter", "a_b")
    yield world("orders", base + ms, [op("register", r=1, h=h) for h in range(1, 7)] + [op("inc", h=1, n=1), op("inc", h=2, n=1), op("gather", g=1)], 4, 5, [op("gather", g=1)])
    nh[0] = 0
    ms = m("gauge", "g") + m("gauge", "g") + m("gauge", "g", [("l", "x")])
    yield world("relabel", base + ms + [op("register", r=1, h=h) for h in (1, 2, 3)],
                [op("l_insert", h=1, a="l", v="x"), op("l_insert", h=2, a="l", v="x"), op("l_insert", h=2, a="l", v="y"), op("l_remove", h=3, a="l"), op("l_clear", h=1), op("l_insert", h=3, a="k", v="x"),
                 op("set", h=1, v=F(1.5)), op("set", h=2, v=F(0.25)), op("set", h=3, v=F(-4.0))], 4, 5, [op("gather", g=1)])
    for kind in ("histogram", "summary"):
        nh[0] = 0
        ms = m(kind, "h", [("l", "x")]) + m(kind, "h", [("l", "x")], help="text") + m(kind, "h", [("l", "y")])
        yield world("merge-" + kind, base + ms, [op("register", r=1, h=h) for h in (1, 2, 3)] + [op("observe", h=h, v=F(v)) for h, v in ((1, 1.0), (2, 0.5), (3, 2.0))] + [op("gather", g=1)], 5, 6, [op("gather", g=1)])


def c10():
    base = [op("gatherer", g=1), op("registry", r=1, g=1)]
    up = math.nextafter(1.0, 2)
    for i, (b1, b2) in enumerate([([], [1.0]), ([0.0, 1.0], [0.5, 1.0]), ([-INF, 0.0], [0.0]), ([1.0], [up]), ([INF], [-INF]), ([-1.0, 2.0], [-2.0, 1.0]), ([0.0], [-0.0, 1e300])]):
        ms = sum([metric(k, k, "histogram", "h", sets=[("buckets", dict(v=[F(b) for b in bs]))], regs=[1]) for k, bs in ((1, b1), (2, b2), (3, b1[:1] + b2[-1:]))], [])
        vs = sorted({v for b in b1 + b2 for v in (b,)} | {0.75, 2.5, -3.0})[:7]
        yield world("pair-%d" % i, base + ms, [op("observe", h=h, v=F(v)) for h in (1, 2) for v in vs] + [op("observe", h=3, v=F(0.5)), op("drop", h=3)], 2, 3, [op("gather", g=1)])


def c11():
    base = [op("gatherer", g=1), op("registry", r=1, g=1)]
    vals = ["", "x", "\\", "\"", "\n", "\\n", "a\\\"\n", "é\u2028", "}", " "]
    for kind in KINDS:
        k = 0
        ms = metric(1, 1, kind, "m", sets=[("help", dict(v="h\\e\nl\"p"))] + ([("buckets", dict(v=[F(0.5)]))] if kind == "histogram" else [("quantile", dict(v=F(.5)))] if kind == "summary" else []), regs=[1])
        change = {"counter": [op("add", h=1, v=F(v)) for v in (0.5, 1e21, INF)], "gauge": [op("set", h=1, v=F(v)) for v in (-0.0, NAN, -INF, 1e-7)]}.get(kind, [op("observe", h=1, v=F(v)) for v in (0.25, INF, -1e21)])
        yield world("text-" + kind, base + ms, [op("l_insert", h=1, a="a", v=v) for v in vals] + [op("l_insert", h=1, a="b", v="\n\""), op("l_clear", h=1), op("ts_set", h=1, v="i:-5"), op("ts_clear", h=1)] + change, 2, 3,
                    [op("gather", g=1, text=True), op("display", h=1), op("display_labels", h=1)])
    for i, w in enumerate(vals):
        yield world("help-%d" % i, base + [op("bld", b=1, kind="gauge", name="m", win=1)], [op("bset", b=1, what="help", v=w + x) for x in vals] + [op("bset", b=1, what="registry", r=1), op("fin", b=1, h=1)], 3, 3, [op("gather", g=1, text=True)])


def c12():
    look = [op("l_iter", h=1), op("l_len", h=2), op("l_get", h=1, a="a"), op("l_get", h=2, a="b")]
    for kind in ("counter", "histogram", "summary"):
        m = metric(1, 1, kind, sets=[label("b", "0")]) + [op("clone", h=1, to=2)]
        yield world("map-" + kind, m, [op("l_insert", h=1, a="a", v="1"), op("l_insert", h=2, a="a", v="2"), op("l_insert", h=1, a="b", v="1"), op("l_insert", h=2, a="c", v=""), op("l_remove", h=1, a="a"), op("l_remove", h=2, a="b"),
                                       op("l_clear", h=2), op("l_insert", h=1, a="le", v="x"), op("l_insert", h=1, a="quantile", v="x"), op("l_insert", h=2, a="__a", v="x"), op("l_insert", h=1, a="", v="x")], 4 if kind == "counter" else 3, 5, look)


def c14():
    base = [op("gatherer", g=1), op("registry", r=1, g=1), op("gatherer", g=2), op("registry", r=2, g=2)]
    end = [op("gather", g=1), op("gather", g=2)]
    yield world("own", base + [op("bld", b=1, kind="gauge", name="m", win=1)],
                [op("bset", b=1, what="namespace", v="n"), op("bset", b=1, what="subsystem", v="s"), op("bset", b=1, what="subsystem", v="t"), op("bset", b=1, what="help", v="h"), op("bset", b=1, what="help", v="i"),
                 op("bset", b=1, what="label", a="a", v="1"), op("bset", b=1, what="label", a="a", v="2"), op("bset", b=1, what="label", a="b", v="0"), op("bset", b=1, what="initial", v=F(1.5)),
                 op("bset", b=1, what="registry", r=1), op("bset", b=1, what="registry", r=2), op("fin", b=1, h=1), op("fin", b=1, h=2)], 4, 5, end, initial=1)
    yield world("common", base + [op("mb_new", b=10, r=1)],
                [op("mb_set", b=10, what="namespace", v="n"), op("mb_set", b=10, what="subsystem", v="s"), op("mb_set", b=10, what="label", a="a", v="1"), op("mb_set", b=10, what="label", a="a", v="2"),
                 op("mb_set", b=10, what="label", a="b", v="1"), op("mb_set", b=10, what="registry", r=2), op("mb_set", b=10, what="set_registry", r=2), op("mb_set", b=10, what="set_registry", r=1),
                 op("bld", b=1, kind="counter", name="m", win=1, via=10), op("bset", b=1, what="label", a="a", v="own"), op("bset", b=1, what="namespace", v="own"), op("fin", b=1, h=1)], 5, 6, end)
    yield world("copies", base + [op("mb_new", b=10, r=1)],
                [op("mb_clone", b=11, **{"from": 10}), op("mb_set", b=10, what="label", a="a", v="1"), op("mb_set", b=11, what="label", a="a", v="2"), op("mb_set", b=11, what="set_registry", r=2),
                 op("bld", b=1, kind="summary", name="m", win=1, via=10), op("bld", b=2, kind="histogram", name="o", win=1, via=11), op("fin", b=1, h=1), op("fin", b=2, h=2)], 6, 7, end)
    yield world("several", base + [op("bld", b=1, kind="histogram", name="m", win=1), op("bset", b=1, what="registry", r=1)],
                [op("bset", b=1, what="buckets", v=[F(1.0)]), op("bset", b=1, what="buckets", v=[F(0.5), F(2.0)]), op("fin", b=1, h=1), op("fin", b=1, h=2), op("bset", b=1, what="label", a="a", v="1"),
                 op("observe", h=1, v=F(0.75)), op("observe", h=2, v=F(1.0)), op("describe", h=1)], 6, 7, end)


def c15():
    look = [op("ts_get", h=1), op("ts_get", h=2)]
    m = metric(1, 1, "gauge") + [op("clone", h=1, to=2)]
    yield world("set", m, [op("ts_set", h=1, v="i:0"), op("ts_set", h=2, v="i:-1"), op("ts_set", h=1, v="i:%d" % (2 ** 63 - 1)), op("ts_clear", h=1), op("ts_now", h=2), op("step_wall", s=-1, ns=999_999_999), op("step_wall", s=0, ns=0),
                           op("step_wall", s=-2, ns=1), op("ts_set_time", h=1, s="i:0", ns=999_999, neg=True), op("ts_set_time", h=1, s="i:1", ns=1_999_999, neg=True), op("ts_set_time", h=2, s="i:1", ns=1_999_999, neg=False)], 3, 5, look)
    base = [op("gatherer", g=1), op("registry", r=1, g=1)]
    for kind in KINDS:
        ms = sum([metric(k, k, kind, "m", sets=[label("a", "x")], regs=[1]) for k in (1, 2, 3)], [])
        yield world("latest-" + kind, base + ms, [op("ts_set", h=h, v="i:%d" % v) for h, v in ((1, 5), (2, -5), (2, 7), (3, 0), (1, -9))] + [op("ts_clear", h=1), op("ts_clear", h=2), op("l_insert", h=3, a="a", v="y")], 3, 4, [op("gather", g=1, text=True)])


def c18():
    m = metric(1, 1, "gauge", sets=[label("a", "1")]) + [op("clone", h=1, to=2)]
    yield world("held", m, [op("hold_iter", it=1, h=1), op("hold_iter", it=2, h=2), op("l_insert", h=2, a="a", v="2"), op("l_insert", h=1, a="b", v="1"), op("l_remove", h=2, a="a"), op("l_clear", h=1),
                            op("held_read", it=1), op("held_read", it=2), op("held_drop", it=1), op("held_drop", it=2), op("held_freed", it=1), op("held_freed", it=2)], 5, 6, [op("l_iter", h=1)])


WORLDS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C14=c14, C15=c15, C18=c18)


def nested(ops):
    """begin/end calls as the driver takes them: closures within closures"""
    out, stack = [], []
    for o in ops:
        to = stack[-1]["body"] if stack else out
        if o["op"] in ("track_begin", "time_begin"):
            x = dict(op=o["op"][:5].rstrip("_"), h=o["h"], tok=9, panic=False, body=[])
            to.append(x)
            stack.append(x)
        elif o["op"] in ("track_end", "time_end"):
            stack.pop().update(tok=o["tok"], panic=o["panic"])
        else:
            to.append(o)
    return out


def strings(quick):
    """Every short string over one character per class, every string of one or two characters with a character below
    U+0300 in it, and some neighbours of what is allowed: in every place where a name is checked."""
    cls = ["a", "Z", "_", ":", "5", "-", "\u00e9"]
    ws = {""} | {a for a in cls} | {a + b for a in cls for b in cls} | {a + b + c for a in cls for b in cls for c in cls}
    ws |= {x + chr(c) for c in range(0x100 if quick else 0x300) for x in ("", "a", "_")}
    ws |= {x + chr(c) + "b" for c in list(range(0x2000, 0x2070)) + [0x660, 0x966, 0xff21, 0xff41, 0xff10, 0x212a, 0x17f, 0x1d400, 0x1f600, 0x10ffff, 0xfeff] for x in ("", "a")}
    ws |= {"le", "le_", "_le", "Le", "lE", "l", "e", "quantile", "quantile_", "quantil", "Quantile", "quantiles", "le\n", " le", "a" * 300, "a" * 300 + "-", "_" * 5, "a__b", "a_", "__", "___", "_a_"}
    if not quick:
        ws |= {a + b + c + d for a in cls for b in cls for c in cls for d in cls}
    return sorted(ws)


def c13_programs(quick):
    ws = strings(quick)
    ops, out = [], []

    def flush(force=False):
        if ops and (force or len(ops) > 150):
            pre = [op("gatherer", g=1), op("registry", r=1, g=1)] + sum([metric(j + 1, j + 1, k, "k%d" % j) for j, k in enumerate(KINDS)], [])
            out.append(dict(id="strings-%d" % len(out), ops=pre + ops + [op("gather", g=1)], clock=[10 ** 12, 0, 0]))
            ops.clear()
    b = 10
    for i, w in enumerate(ws):
        for part in ("name", "namespace", "subsystem", "label"):
            kinds = KINDS if part == "label" and w[:1] in "lqLQ" else [KINDS[(i + len(part)) % 4]]
            for kind in kinds:
                b += 1
                ops.append(op("bld", b=b, kind=kind, name=w if part == "name" else "m", win=1))
                if part == "label":
                    ops.append(op("bset", b=b, what="label", a=w, v="x"))
                elif part != "name":
                    ops.append(op("bset", b=b, what=part, v=w))
                if i % 8 == 0:
                    ops.append(op("bset", b=b, what="registry", r=1))
                ops.append(op("fin", b=b, h=b))
        ops.append(op("label_new", a=w, v="v"))
        for j in range(4) if w[:1] in "lqLQ" else [i % 4]:
            ops.append(op("l_insert", h=j + 1, a=w, v="y"))
            ops.append(op("l_remove", h=j + 1, a=w))
        flush()
    flush(True)
    # quantiles and bounds: every number that matters
    q = [0.0, -0.0, 1.0, math.nextafter(1.0, 2), math.nextafter(0.0, -1), math.nextafter(1.0, 0), 5e-324, -5e-324, 0.5, 2.0, -1.0, INF, -INF, NAN, 1e308, -1e308]
    for x in q:
        b += 1
        ops += [op("quantile_new", v=F(x)), op("bld", b=b, kind="summary", name="m", win=1), op("bset", b=b, what="quantile", v=F(0.5)), op("bset", b=b, what="quantile", v=F(x)), op("fin", b=b, h=b)]
        b += 1
        ops += [op("bld", b=b, kind="histogram", name="m", win=1), op("bset", b=b, what="bucket", v=F(0.5)), op("bset", b=b, what="bucket", v=F(x)), op("fin", b=b, h=b)]
    flush(True)
    return out
