"""Seeded programs for the driver. Every program is a list of operations that is always executable; what the
answers must be is decided by the TLA+ specification alone."""
import math
import random

from enc import f2bits

KINDS = ["counter", "gauge", "histogram", "summary"]
F = f2bits
UNIT = 1953125  # 2^-9 s in ns
INF, NAN = math.inf, math.nan

NAMES = ["a", "b", "foo", "foo_total", "x:y", "_x", ":", "Z9", "a_b", "foo_bucket", "ns", "sub"]
LNAMES = ["a", "b", "c", "_", "A", "Z", "le", "quantile", "a_b", "a0", "_a", "zz", "host", "L_9", "m", "method", "code"]
VALUES = ["", "x", "y", "1", "\\", "\"", "\n", "a\\nb", "a\nb", "é", "\u2028", "\U0001f600", "{}", "a,b=\"c\"", " sp ", "\t", "\r", "\x00", "le", "}\n# x", "\\\"", "\\\\n"]
BAD_L = ["", "0a", "a-b", "__x", "__", "é", "a é", "a:b", "a.b", "a b", ":a", "a\n", "aé", "\u00aa", "a\u0661"]


class W:
    """One program under construction."""

    def __init__(self, rng, pid):
        self.r, self.id, self.ops = rng, pid, []
        self.h, self.kind, self.n = {}, {}, 0
        self.clock = [1_000_000_000_000 + rng.randrange(10 ** 9), 1_000_000, 0]
        self.elapsed = 0
        self.metric = {}
        self.nh = 0

    def fresh(self):
        self.n += 1
        return self.n

    def op(self, o, **k):
        e = dict(op=o, **k)
        self.ops.append(e)
        return e

    def program(self):
        return dict(id=self.id, ops=self.ops, clock=self.clock)

    # ---- building
    def build(self, kind, name=None, help=None, labels=(), regs=(), bounds=(), qs=(), win=None, init=None, ns=None, sub=None, via=None, lin=None, exp=None):
        b, h = self.fresh(), self.fresh()
        win = win if win is not None else 10 ** 10
        e = self.op("bld", b=b, kind=kind, name=name or self.r.choice(NAMES), win=win)
        if via:
            e["via"] = via
        if lin:
            e["lin"] = lin
        if exp:
            e["exp"] = exp
        if ns is not None:
            self.op("bset", b=b, what="namespace", v=ns)
        if sub is not None:
            self.op("bset", b=b, what="subsystem", v=sub)
        if help is not None:
            self.op("bset", b=b, what="help", v=help)
        for a, v in labels:
            self.op("bset", b=b, what="label", a=a, v=v)
        for g in regs:
            self.op("bset", b=b, what="registry", r=g)
        if init is not None:
            self.op("bset", b=b, what="initial", v=F(init))
        if bounds:
            if self.r.random() < .5:
                self.op("bset", b=b, what="buckets", v=[F(x) for x in bounds])
            else:
                for x in bounds:
                    self.op("bset", b=b, what="bucket", v=F(x))
        for q in qs:
            self.op("bset", b=b, what="quantile", v=F(q))
        self.op("fin", b=b, h=h)
        self.add(h, kind)
        return h

    def new(self, kind, name="m", win=10 ** 10):
        h = self.fresh()
        e = self.op("new", h=h, kind=kind, name=name)
        if kind == "summary":
            e["win"] = win
        self.add(h, kind)
        return h

    def add(self, h, kind):
        self.nh += 1
        self.h[h] = h
        self.metric[h] = self.nh
        self.kind[h] = kind

    def clone(self, h):
        t = self.fresh()
        self.op("clone", h=h, to=t)
        self.h[t] = t
        self.metric[t] = self.metric[h]
        self.kind[t] = self.kind[h]
        return t

    def drop(self, h):
        self.op("drop", h=h)
        del self.h[h]

    def any(self, kinds=KINDS):
        c = [h for h in self.h if self.kind[h] in kinds]
        return self.r.choice(c) if c else None

    def gatherer(self, regs=1):
        g = self.fresh()
        self.op("gatherer", g=g, dflt=self.r.random() < .3)
        out = []
        for _ in range(regs):
            r = self.fresh()
            self.op("registry", r=r, g=g)
            out.append(r)
        return g, out

    def advance(self, ns):
        self.elapsed += ns
        self.op("advance", ns=ns)


def span(r):
    """a duration in ns, of any magnitude up to some days"""
    k = r.random()
    if k < .2:
        return r.choice([0, 1, 999, UNIT, 512 * UNIT, 10 ** 9, 10 ** 9 - 1, 1_500_000_000, 60 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9])
    d = int(2 ** (r.random() * 27)) * UNIT
    return d if k < .8 else d + r.randrange(-1000, 1000) if k < .9 else int(10 ** (r.random() * 14))


def dy(r, lim=1000):
    """a dyadic fraction"""
    return r.randrange(-lim * 512, lim * 512) / 2 ** r.choice([0, 1, 2, 9])


def real(r, lim=1000):
    """any finite number"""
    k = r.random()
    if k < .45:
        return dy(r, lim)
    if k < .65:
        return r.randrange(-lim * 100, lim * 100) / 10 ** r.choice([1, 1, 2, 2, 3, 6])
    if k < .75:
        return r.uniform(-lim, lim)
    if k < .85:
        return r.choice([1, -1]) * r.uniform(1, 2) * 2.0 ** r.randrange(-70, 70)
    if k < .92:
        return math.nextafter(r.choice([1, -1]) * 2.0 ** r.randrange(-60, 65), r.choice([INF, -INF]))
    return magnitude(r)


def reals(r, lim=1000):
    """a choice between dyadic fractions and any numbers, for a whole program"""
    return (lambda: dy(r, lim)) if r.random() < .4 else (lambda: real(r, lim))


def amount(r):
    """a counter amount: (value, legal)"""
    k = r.random()
    if k < .30:
        return float(r.randrange(0, 20))
    if k < .55:
        return r.randrange(0, 4096) / 2 ** r.choice([1, 2, 3, 9, 12])
    if k < .70:
        return r.choice([0.0, -0.0, 0.1, 3.45, 1e-9, 5e-324, 0.9999999, 1.5, 2.0 ** 31, 2.0 ** 32, 2.0 ** 32 + 0.5,
                         2.0 ** 52, 2.0 ** 53 - 1, 2.0 ** 53, 2.0 ** 53 + 2, 1e15, 1e15 + 0.5, 2.0 ** 62, 255.0, 256.0, 65535.0, 65536.0,
                         4294967295.0, 4294967295.5, 4294967296.5, 2.0 ** 51 + 0.5])
    if k < .78:
        return r.choice([2.0 ** 64, 2.0 ** 65, 1e20, 1.5e20, 1e26, 2.0 ** 63])
    if k < .82:
        return r.choice([1e300, 1.7976931348623157e308, INF])
    if k < .95:
        return r.choice([-1.0, -0.5, -1e-300, -5e-324, NAN, -INF, -1e300, -2.0 ** 63, -2.0 ** 64])
    return abs(real(r)) if k < .98 else r.random() * 10 ** r.randrange(0, 9)


def counter_add(w, h, v=None):
    r = w.r
    if v is None:
        v = amount(r)
    w.op("add", h=h, v=F(v))


def counter_u64(w, h, u=None):
    r = w.r
    if u is None:
        u = r.choice([0, 1, 2, 255, 256, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1, 2 ** 62, 2 ** 62 + 1, 2 ** 63, 2 ** 64 - 1, r.randrange(100), r.randrange(2 ** 40), r.randrange(2 ** 60),
                      r.randrange(2 ** 64)])
    w.op("add_u64", h=h, u=str(u))


def counter_inc(w, h, n=None):
    n = n or w.r.choice([1, 1, 1, 2, 5, 300])
    w.op("inc", h=h, n=n)


def c01(r, i):
    w = W(r, "c01-%d" % i)
    regs, g = [], None
    if r.random() < .5:
        g, regs = w.gatherer()
    tame = r.random() < .5     # only amounts whose sum stays exactly known
    large = r.random() < .15   # only whole amounts, most of them too large for the precision of binary64
    full = r.random() < .3     # and some that fill 64 bits
    for _ in range(r.randrange(1, 4)):
        w.build("counter", labels=[(r.choice("abc"), str(i))] if r.random() < .5 else [], name="m%d" % len(w.h), regs=regs)
    for _ in range(r.randrange(5, 45)):
        h = w.any()
        k = r.random()
        if large and k < .5:
            x = r.random()
            if x < .2 and full:
                counter_u64(w, h, r.choice([2 ** 64 - 1, 2 ** 63, 2 ** 64 - 2048, 2 ** 64 - r.randrange(1, 1000)]))
            elif x < .6:
                counter_u64(w, h, r.choice([2 ** 53 + 1, 2 ** 53 - 1, 2 ** 54 + 1, r.randrange(2 ** 50, 2 ** 60), 1, 3]))
            elif x < .8:
                counter_add(w, h, float(r.randrange(2 ** 45, 2 ** 53)))
            else:
                counter_inc(w, h, 1)
        elif k < .2:
            counter_inc(w, h)
        elif k < .5:
            counter_add(w, h, r.randrange(0, 4096) / 2 ** r.choice([0, 0, 1, 3, 12]) if tame else None)
        elif k < .58:
            counter_u64(w, h, r.randrange(1000) if tame else None)
        elif k < .63:
            w.clone(h)
        elif k < .66 and len(w.h) > 1:
            w.drop(h)
        elif k < .72 and not large:
            w.op("time", h=h, tok=r.randrange(100), panic=False, body=[dict(op="advance", ns=span(r))])
        elif k < .75 and g:
            w.op("gather", g=g)
        elif k < .78:
            w.op("ts_set", h=h, v="i:%d" % r.randrange(10))
        elif k < .81:
            w.op("l_insert", h=h, a=r.choice("xyz"), v="v")
        elif k < .84:
            w.op("describe", h=h)
        else:
            w.op("read", h=h, what="value")
    for h in list(w.h):
        w.op("read", h=h, what="value")
    return w.program()


GV = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1e300, -1e300, 1.7976931348623157e308, INF, -INF, NAN, 5e-324, 2.0 ** 53, 2.0 ** 53 + 2, -2.0 ** 63, 1e15, 4294967296.0,
      2147483648.0, -2147483649.0, 1e-7, 123456789.125]


def gauge_op(w, h):
    r = w.r
    k = r.random()
    v = dy(r) if r.random() < .4 else real(r) if r.random() < .7 else r.choice(GV)
    if k < .2:
        w.op("inc", h=h, n=r.choice([1, 1, 2, 7]))
    elif k < .35:
        w.op("dec", h=h)
    elif k < .55:
        w.op("add", h=h, v=F(v))
    elif k < .75:
        w.op("sub", h=h, v=F(v))
    else:
        w.op("set", h=h, v=F(v))


def c02(r, i):
    w = W(r, "c02-%d" % i)
    regs, g = [], None
    if r.random() < .5:
        g, regs = w.gatherer()
    for _ in range(r.randrange(1, 4)):
        if r.random() < .2:
            w.new("gauge", "m%d" % len(w.h))
        else:
            w.build("gauge", name="m%d" % len(w.h), init=r.choice([None, dy(r), real(r), r.choice(GV)]), regs=regs)
    for _ in range(r.randrange(5, 45)):
        h = w.any()
        k = r.random()
        if k < .55:
            gauge_op(w, h)
        elif k < .6:
            w.clone(h)
        elif k < .63 and len(w.h) > 1:
            w.drop(h)
        elif k < .66 and g:
            w.op("gather", g=g)
        elif k < .70:
            w.op("describe", h=h)
        elif k < .73:
            w.op("l_insert", h=h, a=r.choice("xyz"), v="v")
        else:
            w.op("read", h=h, what="value")
    for h in list(w.h):
        w.op("read", h=h, what="value")
    return w.program()


def scoped(w, depth, boom=.25):
    """a track or time operation with a body"""
    r = w.r
    op = r.choice(["track", "time"])
    h = w.any(["gauge"] if op == "track" else KINDS)
    body = []
    save, w.ops = w.ops, body
    for _ in range(r.randrange(0, 4)):
        k = r.random()
        if k < .35:
            w.advance(span(r))
        elif k < .6 and depth < 5:
            scoped(w, depth + 1, boom)
        elif k < .7:
            gauge_op(w, w.any(["gauge"]))
        elif k < .75:
            w.op("step_wall", s=r.choice([0, 5, 2_000_000]), ns=0)
        else:
            reads(w, w.any())
    w.ops = save
    w.op(op, h=h, tok=r.randrange(1000), panic=r.random() < boom, body=body)


def reads(w, h):
    k = w.kind[h]
    if k in ("counter", "gauge"):
        w.op("read", h=h, what="value")
    elif k == "histogram":
        w.op("read", h=h, what=w.r.choice(["count", "sum", "buckets", "cum"]))
    else:
        w.op("read", h=h, what=w.r.choice(["count", "sum", "quant"]))


def c03(r, i):
    w = W(r, "c03-%d" % i)
    w.clock[1:] = r.choice([[0, 0], [1_000_000, 0], [1_700_000_000, 123 * UNIT], [2_000_000_000, 999_999_999], [-5, 500_000_000], [-1, 999_999_999], [5, 1], [-1000, 0]])
    w.build("gauge", name="g")
    w.build("gauge", name="g2", init=real(r))
    w.build("counter", name="c")
    w.build("histogram", name="h", bounds=[.5, 1.0, 10.0])
    w.build("summary", name="s", qs=[0.0, .5, 1.0], win=r.choice([0, 10 ** 9, 10 ** 15]))
    for _ in range(r.randrange(2, 9)):
        k = r.random()
        if k < .7:
            scoped(w, 0)
        elif k < .85:
            w.op("set_now", h=w.any(["gauge"]))
        elif k < .9:
            w.op("step_wall", s=r.choice([0, -7, 1_700_000_001]), ns=r.choice([0, UNIT, 500_000_000]))
        elif k < .95:
            w.clone(w.any())
        else:
            for _ in range(5):
                w.op("dur_secs", s=str(r.choice([0, 0, 1, 59, 3600, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, r.randrange(2 ** r.randrange(1, 65))])),
                     ns=r.choice([0, 1, 999, 1000, 999_999, 10 ** 6, 10 ** 9 - 1, 500_000_000, r.randrange(10 ** 9)]))
        reads(w, w.any())
    for h in list(w.h):
        for what in {"counter": ["value"], "gauge": ["value"], "histogram": ["count", "sum", "buckets"], "summary": ["count", "sum", "quant"]}[w.kind[h]]:
            w.op("read", h=h, what=what)
    return w.program()


BOUNDS = [0.0, -0.0, 1.0, 2.0, -1.0, 0.5, 0.1, 0.1 + 1e-17, 0.30000000000000004, 0.3, 5e-324, -5e-324, 1e300, -1e300, 1.5e300, 1.7976931348623157e308, 1e308, -1.7976931348623157e308, INF, -INF, 1e-300, 10.0, 2.0 ** 53, 2.0 ** 53 + 2, 1.0000000000000002, 0.9999999999999999]


def magnitude(r):
    return r.choice([1, 1, -1]) * r.choice([1.0, 1.5, r.uniform(1, 10)]) * 10.0 ** r.randrange(-323, 308)


def near(r, x):
    if math.isinf(x):
        return x
    return r.choice([x, math.nextafter(x, INF), math.nextafter(x, -INF), x + 1, x - 1, -x, x / 2, x * 2, x * (1 + 1e-9)])


def layout(r, big=.2):
    k = r.random()
    n = r.choice([0, 1, 2, 3, 5, 8, 16, 17, 40]) if r.random() >= big else r.choice([64, 100, 130, 257])
    if k < .35:
        return dict(bounds=[r.choice(BOUNDS) if r.random() < .7 else magnitude(r) for _ in range(min(n, 12))])
    if k < .6:
        f = reals(r, 20)
        return dict(bounds=[f() for _ in range(n)])
    def start():
        return dy(r, 10) if r.random() < .6 else r.choice([0.0, 0.1, -0.1, 0.005, 1e-9, 1e15, r.uniform(-5, 5), magnitude(r)])
    extra = [r.choice(BOUNDS)] if r.random() < .3 else []
    if k < .82:
        d = r.choice([0.0, 1.0, 0.5, 10.0, -1.0, 2.0 ** -9, 100.0, -0.25]) if r.random() < .4 else r.choice([0.1, 0.2, 0.3, -0.1, 1 / 3, 0.005, 1e-3, 2.5e-7, 0.7, 1e-17, r.random(), magnitude(r)])
        return dict(lin=[F(start()), F(d), min(n, r.choice([5, 20, 60]))], bounds=extra)
    f = r.choice([2.0, 1.0, 0.5, 10.0, 1.5, 3.0, 0.0, -2.0]) if r.random() < .5 else r.choice([1.1, 0.1, 1.2589254117941673, -1.1, 1e-3, 1.5e10, 0.9, r.uniform(0, 4)])
    return dict(exp=[F(start()), F(f), min(n, r.choice([6, 12]))], bounds=extra)


def bound_values(l):
    """candidate observation values around the bounds of a layout"""
    from enc import bits2f
    xs = list(l.get("bounds", []))
    if "lin" in l:
        s, d, n = bits2f(l["lin"][0]), bits2f(l["lin"][1]), l["lin"][2]
        xs += [s + k * d for k in range(n)]
    if "exp" in l:
        s, d, n = bits2f(l["exp"][0]), bits2f(l["exp"][1]), l["exp"][2]
        xs += [s + d ** k for k in range(n)]
    xs = [x for x in xs if x == x]
    return xs


def observation(r, xs):
    k = r.random()
    if xs and k < .65:
        return near(r, r.choice(xs))
    if k < .85:
        return dy(r, 30) if k < .75 else real(r, 30)
    return r.choice(BOUNDS + [NAN, INF, -INF])


def c04(r, i):
    w = W(r, "c04-%d" % i)
    regs, g = [], None
    if r.random() < .4:
        g, regs = w.gatherer()
    l = layout(r)
    h = w.build("histogram", name="h", regs=regs, **l)
    xs = bound_values(l)
    if r.random() < .03:
        vs = [observation(r, xs) for _ in range(r.choice([300, 1100, 5000]))]
        w.op("observe_all", h=h, vs=[F(v) for v in vs if v == v])
    for _ in range(r.randrange(3, 40) if r.random() < .95 else 300):
        k = r.random()
        if k < .7:
            w.op("observe", h=w.any(), v=F(observation(r, xs)))
        elif k < .74:
            w.clone(w.any())
        elif k < .77 and len(w.h) > 1:
            w.drop(w.any())
        elif k < .79:
            w.op("time", h=w.any(), tok=1, panic=False, body=[dict(op="advance", ns=r.choice([0, UNIT, 512 * UNIT, 1024 * UNIT]))])
        elif k < .82 and g:
            w.op("gather", g=g)
        elif k < .86:
            w.op("describe", h=w.any())
        else:
            reads(w, w.any())
    for h in list(w.h)[:2]:
        for what in ["count", "sum", "buckets", "cum"]:
            w.op("read", h=h, what=what)
    return w.program()


def c04_long():
    """Very many computed buckets, and one observation for each."""
    out = []
    for k, l in enumerate([dict(exp=[F(-1.0), F(2.0), 300]), dict(exp=[F(2.0), F(0.5), 300]), dict(lin=[F(-100.0), F(0.5), 600]), dict(exp=[F(0.0), F(-2.0), 270]), dict(lin=[F(0.0), F(-1.0), 300])]):
        w = W(random.Random(k), "long-%d" % k)
        h = w.build("histogram", name="h", **l)
        w.op("observe_all", h=h, vs=[F(x) for x in bound_values(l)])
        w.op("describe", h=h)
        out.append(w.program())
    return out


def qset(r):
    k = r.random()
    if k < .3:
        return [r.choice([0.0, .25, .5, .75, 1.0]) for _ in range(r.randrange(0, 4))]
    if k < .6:
        return [r.choice([0.0, -0.0, 1.0, 0.9, 0.99, 0.999, 0.1, 0.3, 0.7, 0.29, 0.57, 0.58, 5e-324, 0.9999999999999999]) for _ in range(r.randrange(1, 5))]
    return [r.randrange(0, 1025) / 1024 for _ in range(r.randrange(1, 5))]


SV = [0.0, -0.0, 1.0, INF, -INF, NAN, 1e300, -1e300, 5e-324, 0.1, -0.1]


def sample(r):
    k = r.random()
    return dy(r, 50) if k < .4 else real(r, 50) if k < .65 else float(r.randrange(5)) if k < .85 else r.choice(SV)


def many(w, h):
    """very many observations, the extreme ones first or last"""
    r = w.r
    vs = [float(x) for x in r.sample(range(10 ** 5), r.choice([1100, 2200, 4200, 5500, 9000]))]
    vs.sort(reverse=r.random() < .5) if r.random() < .6 else None
    w.op("observe_all", h=h, vs=[F(v) for v in vs])


def c06(r, i):
    w = W(r, "c06-%d" % i)
    w.clock[1:] = r.choice([[1_000_000, 0], [0, 0], [-100, 0], [1_100_000_000, 5]])
    win = r.choice([0, 1, 1000, UNIT, 10 ** 9, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9, 10 ** 15, 10 ** 17, 9 * 10 ** 18, 2 ** 63 - 1, 1_500_000_000])
    regs, g = [], None
    if r.random() < .4:
        g, regs = w.gatherer()
    w.build("summary", name="s", qs=qset(r) + [0.0, 1.0], win=win, regs=regs)
    if r.random() < .3:
        w.build("summary", name="t", qs=[0.5], win=win * 2 if win < 10 ** 15 else win, regs=regs)
    if r.random() < .2:
        w.new("summary", "u", win)
    steps = [0, 1, 999, UNIT, win, max(win - 1, 0), win + 1, win // 2, win // 3, 2 * win + 5, 10 ** 9]
    steps = [s for s in steps if s < 3 * 10 ** 17]
    bursts = r.random() < .1
    if r.random() < .012:      # very many samples
        h = w.any()
        many(w, h)
        w.op("read", h=h, what="quant")
        w.op("read", h=h, what="count")
    for _ in range(r.randrange(5, 45)):
        k = r.random()
        if k < .33:
            h = w.any()
            for _ in range(r.choice([1, 1, 1, 2, 5]) if not bursts else r.randrange(20, 140)):
                w.op("observe", h=h, v=F(sample(r)))
        elif k < .55:
            d = r.choice(steps)
            if w.elapsed + d < 10 ** 18:    # of what TLC's integers count in seconds
                w.advance(d)
        elif k < .60:
            w.op("step_wall", s=r.choice([0, 1_000_000, 500, -3, 1_100_000_000, 999_990, 1_000_010]), ns=r.choice([0, 999_999_999]))
        elif k < .64:
            w.clone(w.any())
        elif k < .66 and len(w.h) > 1:
            w.drop(w.any())
        elif k < .69:
            w.op("time", h=w.any(), tok=1, panic=False, body=[dict(op="advance", ns=r.choice([0, UNIT, 512 * UNIT, win // UNIT * UNIT if win < 10 ** 16 else 0, 600 * UNIT]))])
        elif k < .75 and g:
            w.op("gather", g=g)
        elif k < .78:
            w.op("describe", h=w.any())
        elif k < .93:
            w.op("read", h=w.any(), what="quant")
        else:
            w.op("read", h=w.any(), what=r.choice(["count", "sum"]))
    if g:
        w.advance(min(r.choice(steps), 3 * 10 ** 16))
        w.op("gather", g=g)
    for h in list(w.h):
        for what in ["quant", "count", "sum"]:
            w.op("read", h=h, what=what)
    return w.program()


def c07(r, i):
    w = W(r, "c07-%d" % i)
    g, regs = w.gatherer()
    k = r.choice([1, 1, 2, 3])
    lab = [("a", "x")] if r.random() < .5 else []
    shared = qset(r) if r.random() < .7 else []
    hs = [w.build("summary", name="s", labels=lab, qs=[q for q in shared if r.random() < .7] + (qset(r) if r.random() < .6 else []), win=r.choice([10 ** 9, 10 ** 12]), regs=regs) for _ in range(k)]
    if r.random() < .3:
        w.build("summary", name="s", labels=[("a", "other")], qs=qset(r), win=10 ** 9, regs=regs)
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 16, 33, 100]) if r.random() < .95 else r.choice([256, 500, 700])
    if r.random() < .02:
        many(w, hs[0])
        n = min(n, 4)
    for _ in range(n):
        w.op("observe", h=w.any() if r.random() < .7 else hs[0], v=F(sample(r)))
        if r.random() < .05:
            w.advance(r.choice([0, 10 ** 8, 10 ** 9, 10 ** 9 + 1]))
        if r.random() < (.1 if n < 200 else .01):
            w.op("read", h=w.any(), what="quant")
    if r.random() < .2:
        w.advance(10 ** 9 + 1)
    for h in list(w.h):
        w.op("read", h=h, what="quant")
    w.op("gather", g=g)
    if r.random() < .3:
        w.op("quantile_new", v=F(r.choice([0.0, 1.0, -0.0, 1.0000000000000002, -5e-324, NAN, .5, 2.0, INF])))
    return w.program()


def c07_positions():
    """Quantiles at and next to every place where the position changes, for summaries alone and aggregated."""
    out = []
    for n in list(range(1, 26)) + [28, 30, 32, 40, 49, 50, 64, 100, 1000]:
        ks = range(n + 1) if n <= 40 else [1, 7, n // 7, n // 3, n // 2, n // 2 + 1, 3 * n // 5, 7 * n // 10, 29 * n // 100, n - n // 20, n - 2, n - 1, n]
        qs = sorted({q for k in ks for q in (k / n, k * (1 / n), math.nextafter(k / n, 0), math.nextafter(k / n, 2)) if 0 <= q <= 1})
        for m in range(0, len(qs), 60):
            r = random.Random("%d-%d" % (n, m))
            w = W(r, "positions-%d-%d" % (n, m))
            g, regs = w.gatherer()
            part = qs[m:m + 60]
            a = w.build("summary", name="s", qs=part, win=10 ** 12, regs=regs)
            two = n > 1 and n % 2 == 0
            b = w.build("summary", name="s", qs=r.sample(part, len(part) // 3), win=10 ** 12, regs=regs) if two else a
            c = w.build("summary", name="t", qs=part, win=10 ** 12)
            xs = list(range(n))
            r.shuffle(xs)
            for j, x in enumerate(xs):
                w.op("observe", h=a if j % 3 else b, v=F(float(x)))
                w.op("observe", h=c, v=F(float(x)))
            w.op("read", h=c, what="quant")
            w.op("gather", g=g, text=False)
            out.append(w.program())
    return out


def c08(r, i, dflt=False, booms=False):
    w = W(r, "c08-%d" % i)
    gs, regs = [], []
    for _ in range(r.randrange(1, 4)):
        g, rs = w.gatherer(r.randrange(1, 3))
        gs.append(g)
        regs += rs
    if dflt:
        gs.append(-1)
        regs.append(-1)
    live = set(gs)
    nm, nc, kept = 0, 0, []
    if r.random() < .04:
        # many registrations between two gathers, some of whose metrics die again
        for k in range(r.choice([66, 130, 270, 520])):
            w.build(r.choice(["counter", "gauge"]), name="n%d" % k, regs=[r.choice(regs)])
            if r.random() < .3:
                w.drop(w.any())
        if r.random() < .5:
            for g in gs:
                w.op("gather", g=g)
            for h in list(w.h):
                if r.random() < .8:
                    w.drop(h)
    scripted = set()
    for _ in range(r.randrange(8, 50)):
        k = r.random()
        if k < .22:
            nm += 1
            rs = [r.choice(regs) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            same = r.random() < .3
            if r.random() < .1 and dflt:
                b, h = w.fresh(), w.fresh()
                kind = r.choice(KINDS)
                w.op("bld", b=b, kind=kind, name="d%d" % nm, win=10 ** 9)
                w.op("bset", b=b, what="default_registry")
                w.op("fin", b=b, h=h)
                w.add(h, kind)
            else:
                w.build(r.choice(KINDS), name="same" if same else "m%d" % nm, labels=[("l", str(r.randrange(2)))] if r.random() < .5 else [], regs=rs)
        elif k < .30 and w.h:
            w.op("register", r=r.choice(regs), h=w.any())
        elif k < .42:
            nc += 1

            def answers():
                script = []
                for _ in range(r.randrange(0, 4 + 3 * booms)):
                    x = r.random()
                    if x < .15:
                        script.append(None)
                        break
                    if booms and x < .4:
                        script.append("panic")
                        continue
                    hs = [r.choice(list(w.h)) for _ in range(r.choice([0, 1, 2]))] if w.h else []
                    script.append(hs)
                    scripted.update(w.metric[h] for h in hs)
                return script
            e = w.op("register_script", r=r.choice(regs), c=nc, script=answers())
            if not booms and r.random() < .4:
                # registers others while it is called
                e["acts"] = []
                for _ in range(r.randrange(1, 4)):
                    l = []
                    for _ in range(r.choice([0, 1, 1, 2])):
                        if w.h and r.random() < .5:
                            l.append(dict(r=r.choice(regs), h=w.any()))
                        else:
                            nc += 1
                            l.append(dict(r=r.choice(regs), c=nc, script=answers()))
                    e["acts"].append(l)
        elif k < .48 and w.h:
            w.clone(w.any())
        elif k < .62 and w.h:
            h = w.any()
            # the last handle of a metric that a script may still answer is kept
            if w.metric[h] not in scripted or sum(w.metric[x] == w.metric[h] for x in w.h) > 1:
                w.drop(h)
        elif k < .66:
            rr = w.fresh()
            w.op("clone_registry", r=rr, **{"from": r.choice(regs)})
            regs.append(rr)
        elif k < .69 and live:
            rr = w.fresh()
            w.op("registry", r=rr, g=r.choice(sorted(live)))
            regs.append(rr)
        elif k < .71 and len(live) > 1:
            g = r.choice(sorted(live))
            if g != -1:
                live.discard(g)
                w.op("drop_gatherer", g=g)
        elif k < .75 and kept:
            w.op("drop_result", keep=kept.pop(r.randrange(len(kept))))
        elif k < .79 and dflt:
            w.op("reset_default")
        elif live:
            e = w.op("gather", g=r.choice(sorted(live)))
            if r.random() < .25:
                e["keep"] = w.fresh()
                kept.append(e["keep"])
    for g in sorted(live):
        w.op("gather", g=g)
        if r.random() < .3:
            w.op("gather", g=g)
    if dflt:   # leave nothing behind in the default gatherer
        for k in kept:
            w.op("drop_result", keep=k)
        for h in list(w.h):
            w.drop(h)
        for _ in range(6):
            w.op("gather", g=-1)
    return w.program()


def c21(r, i):
    """Panics of closures (nested ones too), of histograms given NaN, and of collectors, and everything else after them."""
    w = W(r, "c21-%d" % i)
    g, regs = w.gatherer()
    w.build("gauge", name="g", init=r.choice([None, dy(r)]), regs=[r.choice(regs)])
    for k in range(r.randrange(1, 4)):
        kind = r.choice(KINDS)
        kw = {}
        if kind == "histogram":
            kw["bounds"] = r.sample([0.0, .25, 1.0, 2.0, 8.0, 100.0, INF], r.randrange(0, 5))
        if kind == "summary":
            kw = dict(qs=r.sample([0.0, .25, .5, .75, 1.0], r.randrange(1, 4)), win=r.choice([0, 512 * UNIT, 10 ** 10]))
        w.build(kind, name="m%d" % k, regs=[r.choice(regs)], **kw)
    for h in list(w.h):
        if r.random() < .3:
            w.clone(h)
    nc = 0
    for _ in range(r.randrange(8, 40)):
        h = w.any()
        k = w.kind[h]
        x = r.random()
        if x < .3:
            scoped(w, 0, .6)
        elif x < .42:
            hs = [a for a in w.h if w.kind[a] == "histogram"]
            if hs:
                w.op("observe", h=r.choice(hs), v=F(math.nan))
        elif x < .52:
            nc += 1
            script = []
            for _ in range(r.randrange(1, 6)):
                script.append("panic" if r.random() < .5 else [w.any() for _ in range(r.choice([0, 1, 1, 2]))])
            if r.random() < .4:
                script.append(None)
            w.op("register_script", r=r.choice(regs), c=nc, script=script)
        elif x < .7:
            w.op("gather", g=g)
        elif x < .85:
            if k == "counter":
                w.op("inc", h=h, n=r.choice([1, 2]))
            elif k == "gauge":
                gauge_op(w, h)
            else:
                w.op("observe", h=h, v=F(r.choice([0.0, .25, .5, 1.0, 3.0, 64.0])))
        elif x < .88:
            w.advance(512 * UNIT * r.randrange(1, 4))
        elif x < .91:
            w.op("ts_now", h=h)
        elif x < .94:
            w.op("l_insert", h=h, a=r.choice("ab"), v=r.choice("xy"))
        else:
            reads(w, h)
    for h in list(w.h):
        reads(w, h)
        reads(w, h)
    for _ in range(2):
        w.op("gather", g=g)
    return w.program()


def parts(r, full):
    """a split of a full name into namespace, subsystem and name"""
    cuts = [k for k, c in enumerate(full) if c == "_" and 0 < k < len(full) - 1]
    n = r.randrange(0, 3)
    cs = sorted(r.sample(cuts, min(n, len(cuts))))
    out, last = [], 0
    for c in cs:
        out.append(full[last:c])
        last = c + 1
    out.append(full[last:])
    ok = all(p and not p[0].isdigit() for p in out)
    if not ok:
        return None, None, full
    if len(out) == 1:
        return None, None, out[0]
    if len(out) == 2:
        return (out[0], None, out[1]) if r.random() < .5 else (None, out[0], out[1])
    return out[0], out[1], out[2]


def confusables():
    """Groups of different label sets that a careless comparison takes for one."""
    out = []
    for s1 in ["=", "", ":", "=\"", "\0", "/", ".", " ", "=>", "\x1f", "\u00ff"]:
        for s2 in [",", "", "\",", ";", "|", "&", "\n", " ", "\0", "/", "_", "-", "\x1f", "\u00ff", ", ", "}{"]:
            out.append([[("a", "1" + s2 + "b" + s1 + "2")], [("a", "1"), ("b", "2")]])
            if s1 == "=":
                out.append([[("a", "x" + s2), ("b", "y")], [("a", "x"), ("b", s2 + "y")]])
    for n in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 1023, 1024]:
        v = "v" * n
        out.append([[("a", v + "1")], [("a", v + "2")], [("a", v)]])
        out.append([[("a" + "n" * n + "1", "x")], [("a" + "n" * n + "2", "x")]])
        out.append([[("a", "1" + v)], [("a", "2" + v)]])
    out += [
        [[("a", "xy"), ("b", "")], [("a", "x"), ("b", "y")], [("a", ""), ("b", "xy")]],
        [[("a", "1"), ("b", "2")], [("a", "2"), ("b", "1")], [("a", "1"), ("b", "1")], [("a", "2"), ("b", "2")]],
        [[("a", "x")], [("b", "x")], [("A", "x")], [("a", "X")]],
        [[("a", "x")], [("a", "x ")], [("a", " x")], [("a", "x\0")], [("a", "x\n")]],
        [[("ab", "c")], [("a", "bc")], [("abc", "")]],
        [[("a", "")], []],
        [[("a", ""), ("b", "x")], [("b", "x")]],
        [[("a", "\u00e9")], [("a", "e\u0301")], [("a", "e")]],
        [[("a", "1")], [("a", "01")], [("a", "1.0")], [("a", "+1")]],
        [[("a", "\\n")], [("a", "\n")], [("a", "\\\n")]],
        [[("a", "\"")], [("a", "\\\"")], [("a", "'")]],
    ]
    for n in range(1, 20):
        out.append([[("l%02d" % k, "x" if k < n - 1 else v) for k in range(n)] for v in "xy"])
        out.append([[("l%02d" % k, "x" if k else v) for k in range(n)] for v in "xy"])
        out.append([[("l%02d" % k, "x") for k in range(m)] for m in (n, n + 1)])
    return out


def c09_groups():
    """One family per group and kind, each of its label sets with a value of its own."""
    out, todo = [], [(ls, kind) for ls in confusables() for kind in KINDS]
    for i in range(0, len(todo), 12):
        w = W(random.Random(i), "groups-%d" % (i // 12))
        g, regs = w.gatherer()
        for k, (ls, kind) in enumerate(todo[i:i + 12]):
            for m, l in enumerate(ls):
                h = w.build(kind, name="m%d" % k, labels=l, regs=regs, qs=[.5] if kind == "summary" else ())
                v = float(2 ** m + 16 * k)
                w.op("observe" if kind in ("histogram", "summary") else "add", h=h, v=F(v))
        w.op("gather", g=g, perm=1, text=False)
        out.append(w.program())
    return out


CONFUSABLES = confusables()


def c09(r, i):
    w = W(r, "c09-%d" % i)
    fulls = r.choice([["a_b_c", "a_b", "b_c"], ["foo", "fo", "foo_bar"], ["x_y_z", "x_y_z_", "x__y"], ["req_total", "req_total2", "req"],
                      ["a_bucket", "a", "a_sum"], ["n1_s1_v", "n1_s1", "n1_s1_v_v"], ["a_:b", "a:_b", "a"],
                      ["Foo_x", "foo_x", "FOO_x"], ["a:b_c", "a_b_c", "a_b:c"], ["n" * 70 + "_1", "n" * 70 + "_2"]])
    if r.random() < .5:
        fulls = fulls[:1]
    labs = [[], [("a", "x")], [("a", "y")], [("b", "x")], [("a", "x"), ("b", "x")], [("a", ""), ("b", "x")], [("a", "xb")], [("a", "x"), ("b", "y")], [("a", "b"), ("b", "a")],
            [("ab", "c")], [("a", "bc")]]
    r.shuffle(labs)
    labs = labs[:r.randrange(1, 5)] if r.random() < .7 else r.choice(CONFUSABLES)
    kinds = KINDS if r.random() < .5 else [r.choice(KINDS)]
    n = r.randrange(1, 8) if r.random() < .9 else r.randrange(20, 40)
    specs = []
    for k in range(n):
        specs.append((r.choice(kinds), parts(r, r.choice(fulls)), r.choice(labs), r.choice([None, None, "h1", "h2"]), k))
    vals, num = {}, reals(r, 20)
    for k in range(n):
        vals[k] = [num() for _ in range(r.randrange(0, 4))]
    if r.random() < .25:
        odd = r.choice([[INF], [INF], [-INF], [NAN], [INF, -INF], [INF, NAN]])
        for k in range(n):
            if specs[k][0] != "counter" and r.random() < .5:
                vals[k].append(r.choice([v for v in odd if v == v or specs[k][0] != "histogram"] or [1.0]))
    lay = [[r.choice([0.0, 1.0, 2.0, 5.0, -1.0]) for _ in range(r.randrange(0, 4))] for _ in range(n)]
    tss = [r.choice([None, None, r.randrange(5)]) for _ in range(n)]
    qss = [r.choice([[.5], [.5], [], [0.0, .9], [.25, .5, 1.0]]) for _ in range(n)]
    wins = [r.choice([None, None, 10 ** 12, 2 ** 63 - 1]) for _ in range(n)]
    late = r.random() < .5
    for rep in range(r.choice([1, 2, 3])):
        order = list(specs)
        if rep:
            r.shuffle(order)
        g, regs = w.gatherer()
        built = []
        for kind, (ns, sub, name), lab, help, k in order:
            l = list(lab)
            r.shuffle(l)
            b = w.build(kind, name=name, ns=ns, sub=sub, labels=[] if late else l, help=help, regs=[] if late else regs,
                        bounds=lay[k] if kind == "histogram" else (), qs=qss[k] if kind == "summary" else (), win=wins[k])
            built.append((b, l, k, kind))
        if late:
            for b, l, k, kind in built:
                for a, v in l:
                    w.op("l_insert", h=b, a=a, v=v)
            r.shuffle(built)
            for b, l, k, kind in built:
                w.op("register", r=regs[0], h=b)
        r.shuffle(built)
        for b, l, k, kind in built:
            for v in vals[k]:
                if kind == "counter":
                    counter_add(w, b, abs(v))
                elif kind == "gauge":
                    w.op("add", h=b, v=F(v))
                else:
                    w.op("observe", h=b, v=F(v))
            if tss[k] is not None:
                w.op("ts_set", h=b, v="i:%d" % tss[k])
        w.op("gather", g=g, perm=1, text=False)
    return w.program()


def c19(r, i):
    """Names, labels and quantiles, among them equal ones that were made differently, compared with each other."""
    w = W(r, "c19-%d" % i)
    ab = r.choice(["a_", "ab_", "a_:", "aA_", "a1_"])

    def word():
        while True:
            x = "".join(r.choice(ab) for _ in range(r.randrange(1, 6)))
            if not x[0].isdigit():
                return x
    hs, fulls = [], []
    for _ in range(r.randrange(3, 9)):
        x = r.random()
        full = word() if not fulls or x < .4 else r.choice(fulls)
        if x > .85:
            full += r.choice(["_", "a", ":"])
        fulls.append(full)
        ns, sub, name = parts(r, full)
        hs.append(w.build(r.choice(KINDS), name=name, ns=ns, sub=sub))
    w.op("compare", what="name", hs=hs)
    va = r.choice(["ab", "a=", "a,\"", "a\0", "a\n", "a\u00e9", "aA"])
    ls = []
    for _ in range(r.randrange(3, 9)):
        x = r.random()
        if ls and x < .4:
            ls.append(r.choice(ls))
        else:
            ls.append(["".join(r.choice("abA") for _ in range(r.randrange(1, 3))), "".join(r.choice(va) for _ in range(r.randrange(0, 3)))])
    w.op("compare", what="label", ls=ls)
    qs = [r.choice([0.0, -0.0, 1.0, .5, .25, .1, 1e-300, 5e-324, 1 - 2 ** -53, .5 + 2 ** -53, r.random()]) for _ in range(r.randrange(3, 9))]
    w.op("compare", what="quantile", qs=[F(q) for q in qs])
    return w.program()


def c10(r, i):
    w = W(r, "c10-%d" % i)
    g, regs = w.gatherer()
    lab = [("a", "x")] if r.random() < .3 else []
    hs, xs = [], []
    base = layout(r, .03)
    for _ in range(r.randrange(1, 5) if r.random() < .95 else 12):
        k = r.random()
        if k < .3:
            l = layout(r, .03)
        elif k < .6:
            l = dict(bounds=[near(r, x) if r.random() < .3 else x for x in bound_values(base) if r.random() < .8][:40])
        elif k < .7:
            l = dict(bounds=[])
        else:
            l = base
        xs += bound_values(l)
        hs.append(w.build("histogram", name="h", labels=lab, regs=regs, **l))
    if r.random() < .2:
        w.build("histogram", name="h", labels=[("a", "z")], regs=regs, **layout(r, .03))
    for _ in range(r.randrange(0, 30)):
        w.op("observe", h=w.any(), v=F(observation(r, xs)))
        if r.random() < .05:
            w.op("gather", g=g)
    w.op("gather", g=g)
    return w.program()


def label_op(w, h):
    r = w.r
    k = r.random()
    a = r.choice(LNAMES) if r.random() < .8 else r.choice(BAD_L)
    if k < .5:
        w.op("l_insert", h=h, a=a, v=r.choice(VALUES))
    elif k < .65:
        w.op("l_remove", h=h, a=a)
    elif k < .68:
        w.op("l_clear", h=h)
    elif k < .8:
        w.op("l_iter", h=h)
    elif k < .9:
        w.op("l_get", h=h, a=a)
    elif k < .95:
        w.op("l_len", h=h)
    else:
        w.op("describe", h=h)


def held_views(w, r):
    """Some of the label and timestamp operations go through a view (LabelsMut, TimestampMut) kept by the user; a view
    keeps nothing alive that the program lets go, so such programs drop no handle."""
    for e in w.ops:
        if r.random() < .5:
            if e["op"] in ("l_insert", "l_remove", "l_clear", "l_iter", "l_len"):
                e["lm"] = e["h"]
            elif e["op"] in ("ts_set", "ts_now", "ts_clear", "ts_get"):
                e["tm"] = e["h"]


def c12(r, i):
    w = W(r, "c12-%d" % i)
    views = r.random() < .3
    g, regs = w.gatherer()
    for _ in range(r.randrange(1, 3)):
        kind = r.choice(KINDS)
        ls = [(a, r.choice(VALUES)) for a in r.sample(LNAMES, r.randrange(0, 5)) if not (a == "le" and kind == "histogram") and not (a == "quantile" and kind == "summary")]
        w.build(kind, name="m%d" % len(w.h), labels=ls, regs=regs)
    if r.random() < .08:
        h = w.any()
        for k in range(40):
            w.op("l_insert", h=h, a="n%d" % r.randrange(60), v=str(k))
            if k % 8 == 7:
                w.op("l_iter", h=h)
    for _ in range(r.randrange(5, 50)):
        k = r.random()
        if k < .85:
            label_op(w, w.any())
        elif k < .9:
            w.clone(w.any())
        elif k < .93 and len(w.h) > 2 and not views:
            w.drop(w.any())
        elif k < .96:
            w.op("gather", g=g)
        else:
            h = w.any(["counter", "gauge"])
            if h:
                w.op("inc", h=h)
    for h in list(w.h)[:3]:
        w.op("l_iter", h=h)
    w.op("gather", g=g)
    if views:
        held_views(w, r)
    return w.program()


BADN = ["", "0", "9a", "a-b", "a b", "é", "aé", "a.b", "-", " a", "a\n", "a\u0661", "\u0391", "a{", "a\x00", "a/b", "\uff21", "a\u212a"]
GOODN = ["a", "A", "z", "Z", "_", ":", "__a", "a1", "a:b", "_0", ":9", "le", "quantile", "a_", "A_b_C9", "::", "x" * 70, "a" * 300]
EDGE = ["@", "[", "`", "{", "/", ":", "0", "9", "A", "Z", "a", "z", "_", ";", "\x7f", "\u00c0", "^", ".", "-", "~"]


def word(r, pool_good, pool_bad):
    k = r.random()
    if k < .45:
        return r.choice(pool_good)
    if k < .7:
        return r.choice(pool_bad)
    return "".join(r.choice(EDGE) for _ in range(r.randrange(1, 4)))


GOODL = ["a", "Z", "_", "_a", "a__", "le", "quantile", "LE", "le_", "quantil", "a0", "_0", "l" * 60, "Quantile", "bucket"]
BADL = BAD_L + ["__a", "___", "__le", "a:", "é"]


def c13(r, i):
    w = W(r, "c13-%d" % i)
    g, regs = w.gatherer()
    mostly = r.random() < .6

    def pick(good, bad):
        return r.choice(good) if mostly and r.random() < .85 else word(r, good, bad)

    n = 0
    for _ in range(r.randrange(2, 7)):
        k = r.random()
        kind = r.choice(KINDS)
        if k < .1:
            w.op("label_new", a=pick(GOODL, BADL), v=r.choice(VALUES))
            continue
        if k < .2:
            w.op("quantile_new", v=F(r.choice([0.0, 1.0, -0.0, 1.0000000000000002, -5e-324, NAN, .5, 2.0, INF, -INF, -1.0])))
            continue
        if k < .3:
            h = w.fresh()
            e = w.op("new", h=h, kind=kind, name=pick(GOODN, BADN))
            if kind == "summary":
                e["win"] = 10 ** 9
            continue
        via = None
        if r.random() < .4:
            via = w.fresh()
            w.op("mb_new", b=via, r=regs[0])
            if r.random() < .5:
                w.op("mb_set", b=via, what="namespace", v=pick(GOODN, BADN))
            if r.random() < .5:
                w.op("mb_set", b=via, what="subsystem", v=pick(GOODN, BADN))
            for _ in range(r.choice([0, 0, 1, 2])):
                w.op("mb_set", b=via, what="label", a=pick(GOODL, BADL), v="v")
        kw = {}
        if kind == "histogram":
            kw["bounds"] = [r.choice(BOUNDS) if r.random() < .95 else NAN for _ in range(r.randrange(0, 4))]
        if kind == "summary":
            kw["qs"] = [r.choice([0.0, 1.0, .5, -0.0, 5e-324]) if r.random() < .93 else r.choice([NAN, 1.5, -0.1, 1.0000000000000002, -5e-324, INF, -INF]) for _ in range(r.randrange(0, 4))]
        w.build(kind, name=pick(GOODN, BADN), ns=pick(GOODN, BADN) if r.random() < .4 else None, sub=pick(GOODN, BADN) if r.random() < .4 else None,
                labels=[(pick(GOODL, BADL), r.choice(VALUES)) for _ in range(r.choice([0, 1, 1, 2, 3]))], via=via, regs=[] if via else regs, **kw)
        if r.random() < .3:   # fix a bad builder and try again: the failed attempt has left nothing behind
            last = w.ops[-1]["b"]
            w.op("bset", b=last, what="namespace", v="ok")
            h2 = w.fresh()
            w.op("fin", b=last, h=h2)
        n += 1
    w.op("gather", g=g)
    return w.program()


def c14(r, i):
    w = W(r, "c14-%d" % i)
    gs = [w.gatherer() for _ in range(2)]
    regs = [x for _, rs in gs for x in rs]
    mbs, blds = [], []
    n = 0
    whats = ["namespace", "subsystem", "label", "label", "label", "registry", "set_registry"]
    if r.random() < .4:
        whats = r.sample(whats, r.randrange(1, 5))
    early = r.random() < .3     # many settings before the first metric
    for j in range(r.randrange(8, 45)):
        k = r.random()
        if early and j < 8 and mbs:
            k = r.random() * .35
        if k < .1 or not mbs:
            b = w.fresh()
            if r.random() < .7:
                w.op("mb_new", b=b, r=r.choice(regs))
            else:
                w.op("mb_new", b=b)
            mbs.append(b)
        elif k < .14:
            b = w.fresh()
            w.op("mb_clone", b=b, **{"from": r.choice(mbs)})
            mbs.append(b)
        elif k < .35:
            what = r.choice(whats)
            e = w.op("mb_set", b=r.choice(mbs), what=what)
            if what in ("registry", "set_registry"):
                e["r"] = r.choice(regs)
            elif what == "label":
                e["a"], e["v"] = r.choice("abcdefz"), r.choice(["1", "2", "3", ""])
            else:
                e["v"] = r.choice(["n1", "n2", "s1"])
        elif k < .5 or not blds:
            b = w.fresh()
            kind = r.choice(KINDS)
            n += 1
            e = w.op("bld", b=b, kind=kind, name="m%d" % r.choice([1, 2, n]), win=r.choice([0, 10 ** 9, 5 * 10 ** 9]))
            if r.random() < .75:
                e["via"] = r.choice(mbs)
            elif kind == "histogram" and r.random() < .5:
                e["lin"] = [F(dy(r, 5)), F(1.0), r.randrange(0, 5)]
            blds.append((b, kind))
        elif k < .72:
            b, kind = r.choice(blds)
            what = r.choice(["namespace", "subsystem", "help", "label", "label", "registry", "bucket", "buckets", "quantile", "initial"])
            if what in ("bucket", "buckets") and kind != "histogram" or what == "quantile" and kind != "summary" or what == "initial" and kind != "gauge":
                what = "label"
            e = w.op("bset", b=b, what=what)
            if what == "registry":
                e["r"] = r.choice(regs)
            elif what == "label":
                e["a"], e["v"] = r.choice("abcdefz"), r.choice(["1", "2", "3", ""])
            elif what == "help":
                e["v"] = r.choice(["h1", "h2", ""])
            elif what == "bucket":
                e["v"] = F(dy(r, 5))
            elif what == "buckets":
                e["v"] = [F(dy(r, 5)) for _ in range(r.randrange(0, 4))]
            elif what == "quantile":
                e["v"] = F(r.choice([0.0, .25, .5, 1.0]))
            elif what == "initial":
                e["v"] = F(r.choice([dy(r), r.choice(GV)]))
            else:
                e["v"] = r.choice(["n1", "n2", "s1"])
        elif k < .88:
            b, kind = r.choice(blds)
            h = w.fresh()
            w.op("fin", b=b, h=h)
            w.add(h, kind)
        elif w.h:
            h = w.any()
            kind = w.kind[h]
            if r.random() < .3:
                w.op("l_insert", h=h, a=r.choice("abc"), v=r.choice("xyz"))
            elif kind in ("counter", "gauge"):
                w.op("inc", h=h)
            else:
                w.op("observe", h=h, v=F(real(r, 5)))
            if kind == "summary" and r.random() < .3:
                w.advance(r.choice([10 ** 9, 10 ** 9 + 1, 5 * 10 ** 9]))
    for h in list(w.h):
        w.op("describe", h=h)
    for g, _ in gs:
        w.op("gather", g=g)
    return w.program()


TSV = [0, 1, -1, 999, 1000, -999, -1000, -1001, 2 ** 31, -2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63 + 1, 1500000000123, 2 ** 32]
TSP = [z * (1 << k) + d for k in range(63) for z in (1, -1) for d in (-1, 0, 1)]
TTV = [(0, 0), (0, 1), (0, 999_999), (0, 1_000_000), (0, 999_999_999), (1, 0), (1, 1_500_000), (1_700_000_000, 123_456_789), (2 ** 31, 5), (2 ** 33 + 7, 999_999_999), (253402300799, 999_000_000)]


def ts_op(w, h):
    r = w.r
    k = r.random()
    if k < .3:
        w.op("ts_set", h=h, v="i:%d" % (r.choice(TSV) if r.random() < .5 else r.choice(TSP) if r.random() < .7 else r.randrange(-5, 5)))
    elif k < .55:
        s, n = r.choice(TTV)
        if r.random() < .3:
            n = r.randrange(10 ** 9)
        w.op("ts_set_time", h=h, s="i:%d" % s, ns=n, neg=r.random() < .4)
    elif k < .7:
        w.op("ts_now", h=h)
    elif k < .85:
        w.op("ts_clear", h=h)
    else:
        w.op("step_wall", s=r.choice([0, -1, -1000, 5, 1_700_000_000, 2_000_000_000]), ns=r.choice([0, 1, 999_999, 1_000_000, 999_999_999, 500_000_000]))


def c15(r, i):
    w = W(r, "c15-%d" % i)
    g, regs = w.gatherer()
    views = r.random() < .3
    kinds = r.choice([KINDS, [r.choice(KINDS)]])
    for _ in range(r.randrange(1, 6)):
        w.build(r.choice(kinds), name="m", labels=[("a", r.choice("xy"))] if r.random() < .6 else [], regs=regs)
    for _ in range(r.randrange(4, 40)):
        k = r.random()
        if k < .6:
            ts_op(w, w.any())
        elif k < .66:
            w.clone(w.any())
        elif k < .7 and len(w.h) > 2 and not views:
            w.drop(w.any())
        elif k < .75:
            w.advance(r.choice([0, 1, 10 ** 6, 999_999, 10 ** 9]))
        elif k < .85:
            w.op("gather", g=g)
        elif k < .88:
            w.op("describe", h=w.any())
        else:
            w.op("ts_get", h=w.any())
    for h in list(w.h):
        w.op("ts_get", h=h)
    w.op("gather", g=g, text=True)
    if views:
        held_views(w, r)
    return w.program()


CROWDS = [10_000, 32_768, 65_535, 65_537, 131_073, 300_001, 1_048_577]


def c04_crowds():
    """Very many observations in the same buckets."""
    out = []
    for k, n in enumerate(CROWDS):
        w = W(random.Random(n), "crowds-%d" % n)
        g, regs = w.gatherer()
        h = w.build("histogram", name="h", regs=regs, bounds=[1.0, 2.0, 3.0])
        i = w.build("histogram", name="h", regs=regs, bounds=[1.0, 2.5, 3.0][k % 2:])
        for v, m in [(1.0, n // 2), (3.0, n), (2.0, 1), (4.0, n // 3)]:
            w.op("observe_many", h=h, v=F(v), n=m)
        w.op("observe_many", h=i, v=F(3.0), n=n)
        for x in (h, i):
            for what in ("buckets", "cum", "count", "sum"):
                w.op("read", h=x, what=what)
        w.op("gather", g=g)
        out.append(w.program())
    return out


def crowds(shared):
    """Very many samples in the window of one summary, or of two with the same name."""
    out = []
    for k, n in enumerate(CROWDS):
        w = W(random.Random(n), "crowds-%d" % n)
        g, regs = w.gatherer()
        hs = [w.build("summary", name="s", qs=[0.0, 0.25, 0.5, 0.9, 0.999, 1.0], win=10 ** 10, regs=regs) for _ in range(2 if shared else 1)]
        # the first and the last ones differ from all others
        for j, h in enumerate(hs):
            w.op("observe", h=h, v=F(-1.0 - j))
        for v, m in [(1.0, n // 4), (2.0, n // 4), (3.0, n // 2 + n % 4)]:
            w.op("observe_many", h=hs[-1], v=F(v), n=m)
            w.advance(3 * 10 ** 9)
        w.op("observe", h=hs[0], v=F(9.0))
        for _ in range(4):
            for h in hs:
                for what in ("quant", "count", "sum"):
                    w.op("read", h=h, what=what)
            w.op("gather", g=g)
            w.advance(2 * 10 ** 9)
        out.append(w.program())
    return out


def c06_crowds():
    return crowds(False)


def c07_crowds():
    return crowds(True)


def c08_crowds():
    """Very many collectors, some of which end; with metrics among them."""
    out = []
    for n in (700, 1500, 3000):
        w = W(random.Random(n), "crowds-%d" % n)
        g, regs = w.gatherer(2)
        for k in range(n):
            if k % 100 == 3:
                w.build(KINDS[k // 100 % 4], name="m%d" % k, regs=[regs[k % 2]])
            w.op("register_script", r=regs[k % 2], c=k + 1, script=[[], None] if k % 7 == 2 else [None] if k % 11 == 5 else [[]] * 3)
            if k == n // 3:
                w.op("gather", g=g)
        for _ in range(3):
            w.op("gather", g=g)
            w.drop(list(w.h)[0])
        out.append(w.program())
    return out


def c12_crowds():
    """Very many labels in one set."""
    out = []
    for k, n in enumerate((20, 40, 70, 150, 300)):
        w = W(random.Random(n), "crowds-%d" % n)
        g, regs = w.gatherer()
        names = ["n%d" % (7 * i % n) for i in range(n)]
        h = w.build(KINDS[k % 4], name="m", labels=[(a, "0") for a in names[:n // 2]] if k % 2 else [], regs=regs)
        c = w.clone(h)
        for i, a in enumerate(names):
            w.op("l_insert", h=c if i % 3 else h, a=a, v=str(i))
            if i % (n // 4) == 5:
                w.op("l_iter", h=h)
                w.op("l_len", h=h)
        for i, a in enumerate(names):
            if i % 4 == 2:
                w.op("l_insert", h=c, a=a, v="again" if i % 8 == 2 else str(i))
        w.op("l_iter", h=h)
        w.op("gather", g=g)
        for i, a in enumerate(names):
            if i % 3 == 1:
                w.op("l_remove", h=h, a=a)
            elif i % 7 == 0:
                w.op("l_get", h=h, a=a)
        w.op("l_iter", h=c)
        w.op("gather", g=g)
        w.op("l_clear", h=c)
        w.op("l_iter", h=h)
        out.append(w.program())
    return out


def c13_long():
    """Very long names, good ones, and with one bad character at the end or in the middle."""
    out = []
    for n in (128, 256, 1023, 1025, 4097, 20000):
        w = W(random.Random(n), "long-%d" % n)
        g, regs = w.gatherer()
        for name in ["a" * n, "_" * n, "a" * (n - 1) + "-", "a" * (n // 2) + "\u00e9" + "a" * (n // 2), "9" + "a" * n]:
            for kind in KINDS:
                e = w.op("new", h=w.fresh(), kind=kind, name=name)
                if kind == "summary":
                    e["win"] = 10 ** 9
            w.op("label_new", a=name, v="v")
        w.op("label_new", a="a", v="v" * n)
        w.op("label_new", a="a" * (n - 1) + ":", v="v")
        w.op("label_new", a="__" + "a" * n, v="v")
        out.append(w.program())
    return out


def c11_long():
    """Very long texts."""
    out = []
    for k, n in enumerate((500, 1200, 4000)):
        for bad in ("", "\n", "\\", "\""):
            w = W(random.Random(n), "long-%d-%d" % (n, len(out)))
            g, regs = w.gatherer()
            t = "x" * n + bad + "y" * n
            h = w.build(KINDS[len(out) % 4], name="m" * n if k < 2 else "m", help=t, labels=[("a", t), ("b", bad + t)], regs=regs)
            w.op("display", h=h)
            w.op("gather", g=g, text=True)
            out.append(w.program())
    return out


def c15_powers():
    """Timestamps at and next to every power of two, read back."""
    out = []
    for k, kind in enumerate(KINDS):
        w = W(random.Random(kind), "powers-%s" % kind)
        h = w.build(kind, name="m")
        for v in TSP[k::2]:
            w.op("ts_set", h=h, v="i:%d" % v)
            w.op("ts_get", h=h)
        out.append(w.program())
    return out


def c18(r, i):
    """Labels held by the user while the label set is replaced; a reference that does not own its snapshot (from get,
    or collected from an iterator) is only read while its label set is current (see the known findings)."""
    w = W(r, "c18-%d" % i)
    labs = {}      # metric -> its labels
    for _ in range(r.randrange(1, 3)):
        ls = {a: r.choice(VALUES) for a in r.sample(["a", "b", "c", "zz"], r.randrange(0, 4))}
        h = w.build(r.choice(KINDS), name="m%d" % len(w.h), labels=list(ls.items()))
        labs[w.metric[h]] = ls
    held = {}      # it -> [kind, metric, current, dropped]
    n = 0
    for _ in range(r.randrange(10, 60)):
        k = r.random()
        h = w.any()
        m = w.metric[h]
        live = [x for x in held if not held[x][3]]
        if k < .25:
            n += 1
            a, ls = r.choice(["a", "b", "c", "zz"]), labs[m]
            x = r.random()
            if x < .65:
                v = "v%d" % n
                w.op("l_insert", h=h, a=a, v=v)
                ls[a] = v
            elif x < .85:
                if a not in ls:
                    continue
                w.op("l_remove", h=h, a=a)
                del ls[a]
            else:
                if not ls:
                    continue
                w.op("l_clear", h=h)
                ls.clear()
            for y in held.values():
                if y[1] == m:
                    y[2] = False
        elif k < .45:
            it = w.fresh()
            kind = r.choice(["hold_iter", "hold_iter", "hold_vec", "hold_get"])
            e = w.op(kind, it=it, h=h)
            if kind == "hold_get":
                e["a"] = r.choice(["a", "b", "c", "zz"])
            # an empty answer has no address that could be followed
            held[it] = [kind, m, True, False, bool(labs[m]) if kind != "hold_get" else e["a"] in labs[m]]
        elif k < .7 and live:
            it = r.choice(live)
            if held[it][0] == "hold_iter" or held[it][2]:
                w.op("held_read", it=it)
        elif k < .78 and live:
            it = r.choice(live)
            w.op("held_drop", it=it)
            held[it][3] = True
        elif k < .92 and held:
            it = r.choice(list(held))
            if held[it][4]:
                w.op("held_freed", it=it)
        elif k < .96:
            w.clone(h)
        else:
            w.op("l_iter", h=h)
    return w.program()


FVAL = [0.0, -0.0, 1.0, -1.0, 0.1, 12.3, 1e21, 1e22, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-7, 123456789.125,
        0.1 + 0.2, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, 1e16, 1e17, 123456789012345678.0, 3.3333333333333335e-9, INF, -INF, NAN]
CHARS = ["\\", "\"", "\n", "n", "\\n", "{", "}", ",", "=", " ", "#", "\t", "\r", "\x0b", "\x0c", "\x00", "\x07", "\x1b", "\x7f", "\x85", "\u00e9", "\u2028", "\u2029", "\ufeff",
         "\U0001f600", "\u0301", "a", "1", "'", "/", "\u200b", "\ufffd", "\U0010ffff", "\u00a0"]


def utext(r):
    k = r.random()
    if k < .3:
        return r.choice(VALUES)
    if k < .9:
        return "".join(r.choice(CHARS) for _ in range(r.randrange(0, 7)))
    return "".join(chr(r.choice([r.randrange(0, 0x100), r.randrange(0x100, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(1, 12)))


def c11(r, i):
    w = W(r, "c11-%d" % i)
    g, regs = w.gatherer()
    for _ in range(r.randrange(1, 5)):
        kind = r.choice(KINDS)
        ban = {"histogram": "le", "summary": "quantile"}.get(kind)
        ls = [(a, utext(r)) for a in r.sample(LNAMES, r.choice([0, 1, 1, 2, 3])) if a != ban]
        kw = {}
        if kind == "histogram":
            kw["bounds"] = [r.choice(BOUNDS + FVAL[:-3]) for _ in range(r.choice([0, 1, 2, 5]))]
        if kind == "summary":
            kw["qs"] = sorted(set(qset(r)))
        h = w.build(kind, name=r.choice(["m", "m", "n%d" % len(w.h), "x:y_z"]), ns=r.choice([None, None, "ns", "N:s"]), sub=r.choice([None, None, "sub_", "_"]),
                    help=utext(r) if r.random() < .6 else None, labels=ls, regs=regs, **kw)
        for _ in range(r.randrange(0, 4)):
            v = r.choice(FVAL) if r.random() < .6 else real(r)
            if kind == "counter":
                counter_add(w, h, abs(v))
            elif kind == "gauge":
                w.op("set", h=h, v=F(v))
            elif v == v or kind == "summary":
                w.op("observe", h=h, v=F(v))
        if kind == "counter" and r.random() < .3:
            counter_u64(w, h)
        if r.random() < .4:
            w.op("ts_set", h=h, v="i:%d" % r.choice(TSV))
        for _ in range(r.choice([0, 0, 1])):
            w.op("l_insert", h=h, a=r.choice([x for x in LNAMES if x != ban]), v=utext(r))
        if r.random() < .6:
            w.op("display", h=h)
        if r.random() < .3:
            w.op("display_labels", h=h)
    w.op("gather", g=g, text=True)
    return w.program()


ODD = [0.0, -0.0, 5e-324, -5e-324, 1.0, -1.0, .5, 1e16, 2.0 ** 53, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 2.0 ** 65, 1.7976931348623157e308, -1.7976931348623157e308, INF, -INF, NAN]


TEXTS = ["", " ", "a", "A", "\\", "\n", "\"", "\u00e9", "\U0001f600", "a ", " a", "\t", "\r", "\u0085", "\u2028", "x" * 300, "{}", "%s", "a,b", "=", "\x00", "\\n"]


def c14_settings():
    """Every odd value of every setting, alone and after another."""
    out = []

    def one(name, kind, sets, after=lambda w, h: None):
        w = W(random.Random(0), "set-%s-%d" % (name, len(out)))
        g, regs = w.gatherer()
        b = w.fresh()
        w.op("bld", b=b, kind=kind, name="m", win=10 ** 10)
        w.op("bset", b=b, what="registry", r=regs[0])
        hs = []
        for x in sets:
            w.op("bset", b=b, **x)
            h = w.fresh()
            w.op("fin", b=b, h=h)
            w.add(h, kind)
            after(w, h)
            w.op("describe", h=h)
        w.op("gather", g=g)
        out.append(w.program())

    def seen(w, h):
        for v in (-1.0, .25, .5, 2.0):
            w.op("observe", h=h, v=F(v))

    for k, v in enumerate(ODD):
        one("initial", "gauge", [dict(what="initial", v=F(v)), dict(what="initial", v=F(ODD[k - 1])), dict(what="initial", v=F(v))])
        if v == v:
            one("bucket", "histogram", [dict(what="bucket", v=F(v)), dict(what="bucket", v=F(ODD[k - 2]))] if ODD[k - 2] == ODD[k - 2] else [dict(what="buckets", v=[F(v), F(-v)])], seen)
    for k, v in enumerate(TEXTS):
        for kind in KINDS:
            one("help", kind, [dict(what="help", v=v), dict(what="help", v=TEXTS[k - 1])])
        one("label", KINDS[k % 4], [dict(what="label", a="a", v=v), dict(what="label", a="b", v=v), dict(what="label", a="a", v=TEXTS[k - 1])])
    for k, v in enumerate([0.0, -0.0, 1.0, .5, 5e-324, 1 - 2 ** -53, .25]):
        one("quantile", "summary", [dict(what="quantile", v=F(v)), dict(what="quantile", v=F([.5, 1.0, 0.0][k % 3]))], seen)
    for k, v in enumerate(["a", "_", "A_", ":", "a_b", "n" * 100]):
        for what in ("namespace", "subsystem"):
            for kind in KINDS:
                one(what, kind, [dict(what=what, v=v), dict(what=what, v="b"), dict(what="namespace", v=v)])
    return out


def c20(r, i):
    """Every operation, with arguments at the ends of their ranges (judged by Total only)."""
    w = W(r, "c20-%d" % i)
    odd = lambda: F(r.choice(ODD) if r.random() < .8 else magnitude(r))
    g, regs = w.gatherer(r.randrange(1, 3))
    taken = {}
    for _ in range(r.randrange(1, 5)):
        kind = r.choice(KINDS)
        if r.random() < .15:
            w.new(kind, "m", r.choice([0, 10 ** 9, 2 ** 63 - 1]))
            continue
        kw = {}
        if kind == "histogram":
            x = r.random()
            n = r.choice([0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025])
            fin = lambda: F(r.choice([v for v in ODD if v == v and abs(v) != INF]))
            if x < .2:
                kw["lin"] = [fin(), fin(), n]
            elif x < .4:
                kw["exp"] = [fin(), F(r.choice([0.0, 1.0, 2.0, .5, 1.1, -1.0, -2.0, 1e300, 5e-324])), n]
            elif x < .6:
                kw["bounds"] = [r.choice([v for v in ODD if v == v]) for _ in range(r.randrange(0, 9))]
            else:
                kw["bounds"] = [float(v) for v in r.sample(range(-2000, 2000), n)]
        if kind == "summary":
            kw["qs"] = [r.choice([0.0, -0.0, 1.0, .5, 5e-324, 1 - 2 ** -53, r.random()]) for _ in range(r.choice([0, 1, 2, 3, 8, 30]))]
            kw["win"] = r.choice([0, 0, 1, 10 ** 9, 10 ** 15, 2 ** 63 - 1])
        if kind == "gauge" and r.random() < .5:
            kw["init"] = r.choice(ODD)
        if r.random() < .5:
            kw["help"] = utext(r)
        h = w.build(kind, name="x" * r.choice([1, 1, 1, 64, 255, 256, 4000]), regs=r.sample(regs, r.randrange(0, len(regs) + 1)),
                    labels=[("a" * (k + 1), utext(r)) for k in range(r.choice([0, 0, 1, 2, 9, 40]))], **kw)
        if r.random() < .4:
            w.op("register", h=h, r=r.choice(regs))
    if r.random() < .1:
        h = w.any()
        for _ in range(r.choice([65, 260, 1030, 2050])):
            w.op("register", h=h, r=r.choice(regs))
    for _ in range(r.randrange(5, 40)):
        if not w.h:
            break
        h = w.any()
        k = w.kind[h]
        x = r.random()
        if x < .3:
            if k == "counter":
                y = r.random()
                w.op("inc", h=h, n=r.choice([1, 3])) if y < .3 else w.op("add_u64", h=h, u=str(r.choice([0, 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]))) if y < .6 else w.op("add", h=h, v=odd())
            elif k == "gauge":
                y = r.random()
                w.op(r.choice(["inc", "dec"]), h=h, n=1) if y < .3 else w.op("set_now", h=h) if y < .4 else w.op(r.choice(["add", "sub", "set"]), h=h, v=odd())
            else:
                w.op("observe", h=h, v=odd())
        elif x < .38:
            if k in ("histogram", "summary"):
                w.op("observe_all", h=h, vs=[F(r.choice(ODD[:-1])) for _ in range(r.choice([0, 1, 2, 5, 63, 64, 65, 255, 256, 257, 1000]))])
        elif x < .46:
            body = [dict(op="advance", ns=r.choice([0, 1, 10 ** 9, 10 ** 17]))] if r.random() < .5 else []
            boom = r.random() < .4
            a = w.any()
            if r.random() < .6:
                body.append(dict(op="describe", h=a))
            if r.random() < .4:
                body.append(dict(op="gather", g=g))
            if r.random() < .4:
                body.append(dict(op="time", h=a, tok=2, panic=r.random() < .3, body=[]))
            w.op("track" if k == "gauge" and r.random() < .5 else "time", h=h, tok=1, panic=boom, body=body)
        elif x < .56:
            w.advance(r.choice([0, 1, 10 ** 9, 10 ** 12, 10 ** 15, 10 ** 16]))
        elif x < .62:
            w.op("step_wall", s=r.choice([0, -1, -10 ** 9, 2 * 10 ** 9]), ns=r.choice([0, 1, 999_999_999]))
        elif x < .70:
            y = r.random()
            if y < .5:
                w.op("ts_set", h=h, v="i:%d" % r.choice([0, -1, 1, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63]))
            elif y < .7:
                w.op("ts_set_time", h=h, s="i:%d" % r.choice([0, 1, 2 ** 40, 9 * 10 ** 15]), ns=r.choice([0, 999_999_999]), neg=r.random() < .5)
            else:
                w.op(r.choice(["ts_now", "ts_clear", "ts_get"]), h=h)
        elif x < .80:
            y = r.random()
            a = r.choice(["a", "b", "le", "quantile", "", "__x", "\u00e9", "A" * 300, "a-b"])
            if y < .5:
                w.op("l_insert", h=h, a=a, v=utext(r))
            elif y < .7:
                w.op(r.choice(["l_remove", "l_get"]), h=h, a=a)
            elif y < .8:
                w.op("l_clear", h=h)
            else:
                w.op(r.choice(["l_iter", "l_len", "display_labels"]), h=h)
        elif x < .88:
            w.op(r.choice(["describe", "describe", "display"]), h=h)
        elif x < .92:
            w.clone(h)
        elif x < .94:
            w.drop(h)
        else:
            w.op("gather", g=g, text=r.random() < .5)
    w.op("gather", g=g, text=True)
    return w.program()


def c17(r, i):
    """Every operation can be performed: the generator keeps count of what it may open."""
    ops, nfds, nthr, nmap, limit, ngs, room = [], 0, 0, 0, None, 0, None
    many = r.random() < .15         # very many descriptors, for which the limit has to stay high

    def op(o, **k):
        ops.append(dict(op=o, **k))

    for _ in range(r.randrange(1, 3)):
        op("collector", g=ngs)
        ngs += 1
    for _ in range(r.randrange(4, 16)):
        k = r.random()
        if k < .12 and nthr < 24:
            n = r.randrange(1, 5)
            op("spawn", n=n)
            nthr += n
        elif k < .22 and nthr:
            n = r.randrange(1, nthr + 1)
            op("join", n=n)
            nthr -= n
        elif k < .34 and nfds < (500 if many else 100):
            n = r.choice([1, 2, 200, 300] if many else [1, 1, 2, 7, 40])
            op("open", n=n)
            nfds += n
        elif k < .40:
            if r.random() < .3:
                op("limit", share=1000)
                op("dup", n=1, at=r.choice([1023, 1024, 1050, 2047, 2500, 3900]))
                op("gather", g=0)
            else:
                op("dup", n=1, at=r.randrange(60, 250))
            nfds += 1
        elif k < .48 and nfds:
            n = r.randrange(1, nfds + 1)
            op("close", n=n, which=r.randrange(100))
            nfds -= n
        elif k < .55:
            x = r.random()
            if x < .4:
                op("limit", soft=r.choice([900, 1000, 1024] if many else [300, 512, 1000, 1024, 333]))
            elif x < .95:
                op("limit", share=r.choice([1000, 999, 950] if many else [1000, 999, 900, 750, 501, 500, 499, 250, 100]))
            else:
                op("limit", hard=r.choice([990, 900]), share=r.choice([1000, 500, 600]))
        elif k < .57:
            op("child", ticks=r.choice([4, 8]))
        elif k < .59:
            op("wall", by=r.choice([3600, -3600, 86400 * 365, -1, 1]))
        elif k < .63:
            mb = r.choice([1, 16, 64, 200, 1500, 3000, 5000, 70000])
            op("map", mb=mb, touch=mb <= 200 and r.random() < .5)
            nmap += 1
        elif k < .68 and nmap:
            op("unmap")
            nmap -= 1
        elif k < .78:
            op("burn", ticks=r.choice([1, 3, 8]), sys=r.random() < .5)
        elif k < .80:
            op("collector", g=ngs)
            ngs += 1
        elif k < .82:
            op("name", v=r.choice(["a b", "a) b (c", ") R 1 1", "x", "(((", "\\n"]))
        elif k < .84:
            op("limit", soft=0)           # nothing more can be opened, so nothing can be asked
            for g in range(ngs):
                op("gather", g=g)
            op("limit", soft=1000)
            op("gather", g=0)
        else:
            op("gather", g=r.randrange(ngs))
    for g in range(ngs):
        op("gather", g=g)
    op("burn", ticks=1, sys=False)
    op("gather", g=0)
    return dict(id="c17-%d" % i, ops=ops)


def make(fn, seed, n, **kw):
    out = []
    for i in range(n):
        r = random.Random("%s-%s-%d" % (fn.__name__, seed, i))
        out.append(fn(r, i, **kw))
    return out
