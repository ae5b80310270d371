"""Encoding of driver logs for the TLA+ trace specification: one table of numbers and one of strings per file;
events refer to them by index (strings: 0 = absent)."""
import re
import struct
from fractions import Fraction

NONE = "-"


def f2bits(x):
    return "f:%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def bits2f(s):
    return struct.unpack("<d", struct.pack("<Q", int(s[2:], 16)))[0]


def clamp(n):
    return max(-2147483647, min(2147483647, n))


def exact(v):
    """a finite number as sign, digits in base 2^15 and exponent"""
    n, x, l = abs(v.numerator), 1 - v.denominator.bit_length(), []
    if n:
        z = (n & -n).bit_length() - 1
        n, x = n >> z, x + z
    while n:
        l.append(n & 32767)
        n >>= 15
    return dict(c="fin", s=int(v < 0), n=l, x=x)


# Numbers as Go's ParseFloat and ParseInt read them.
FLOAT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf|infinity)|nan", re.I | re.A)
INT = re.compile(r"[+-]?\d+", re.A)
WORD = re.compile(r'[^\s"{},=]+')


class Tables:
    def __init__(self):
        self.w = {}
        self.f, self.fi, self.s, self.si = [], {}, [], {}

    def num(self, s):
        """s: "f:<bits>" or "u:<decimal>" """
        if s[0] == "f":
            x = bits2f(s)
            if x != x:
                s = "f:7ff8000000000000"
        if s not in self.fi:
            self.f.append(s)
            self.fi[s] = len(self.f)
        return self.fi[s]

    def str(self, s):
        if s not in self.si:
            self.s.append(s)
            self.si[s] = len(self.s)
        return self.si[s]

    def opt(self, v):
        return 0 if v == NONE or v is None else self.str(v[0])

    def text(self, s):
        for w in WORD.findall(s):
            if w not in self.w and len(w) < 400:
                f = self.num(f2bits(float(w))) if FLOAT.fullmatch(w) else 0
                t = ts("i:" + w) if INT.fullmatch(w) else dict(NOTS, k=2)
                if f:
                    self.w[w] = dict(c=[ord(c) for c in w], f=f, t=t)
        return self.str(s)

    def dump(self):
        vals = []
        for s in self.f:
            if s[0] == "u":
                vals.append(Fraction(int(s[2:])))
            else:
                x = bits2f(s)
                vals.append(None if x != x else x if x in (float("inf"), float("-inf")) else Fraction(x))
        order = sorted(set(v for v in vals if v is not None))
        rank = {v: i + 1 for i, v in enumerate(order)}
        out = []
        for i, v in enumerate(vals):
            if v is None:
                r = dict(c="nan", s=0, n=[], x=0, r=0)
            elif isinstance(v, float):
                r = dict(c="inf", s=int(v < 0), n=[], x=0, r=rank[v])
            else:
                r = dict(exact(v), r=rank[v])
            r["id"] = i + 1
            out.append(r)
        so = sorted(self.s, key=lambda s: s.encode("utf-8", "surrogatepass"))
        rk = {s: i + 1 for i, s in enumerate(so)}
        return {"F": out, "S": [{"c": [ord(c) for c in s], "o": rk[s]} for s in self.s], "W": list(self.w.values())}


NOTS = dict(k=0, neg=False, hi=0, lo=0, ms=0)


def ts(v):
    if v == "none":
        return dict(NOTS)
    n = int(v[2:])
    a = abs(n)
    sec, ms = divmod(a, 1000)
    hi, lo = divmod(sec, 10 ** 9)
    return dict(k=1, neg=n < 0, hi=hi, lo=lo, ms=ms)


def dur(ns):
    return dict(s=clamp(ns // 10 ** 9), n=ns % 10 ** 9)


class Enc(Tables):
    def pairs(self, l):
        return [[self.str(a), self.str(b)] for a, b in l]

    def fpairs(self, l):
        return [[self.num(a), self.num(b)] for a, b in l]

    def fcounts(self, l):
        return [[self.num(a), clamp(b)] for a, b in l]

    def desc(self, d):
        return dict(t="desc", kind=d["kind"], ns=self.opt(d["name"]["ns"]), sub=self.opt(d["name"]["sub"]),
                    name=self.str(d["name"]["name"]), full=self.str(d["name"]["full"]), help=self.opt(d["help"]),
                    labels=self.pairs(d["labels"]), ts=ts(d["ts"]),
                    v=self.num(d["value"] if "value" in d else d["sum"]),
                    buckets=self.fcounts(d.get("buckets", [])), cum=self.fcounts(d.get("cum", [])),
                    count=clamp(d.get("count", 0)), quant=self.fpairs(d.get("quant", [])))

    def family(self, f):
        return dict(full=self.str(f["full"]), kind=f["kind"], help=self.opt(f["help"]),
                    series=[dict(name=self.str(s["name"]), labels=self.pairs(s["labels"]), ts=ts(s["ts"]),
                                 v=self.num(s["value"] if "value" in s else s["sum"]),
                                 cum=self.fcounts(s.get("cum", [])), count=clamp(s.get("count", 0)),
                                 quant=self.fpairs(s.get("quant", []))) for s in f["series"]])

    def ret(self, op, r):
        if r == "panic":
            return dict(t="panic")
        if r in ("InvalidInput", "Other"):
            return dict(t="err", k=r)
        if r == "ok":
            return dict(t="ok")
        if op in ("fin", "new", "describe"):
            return self.desc(r)
        if op == "gather":
            if r.get("panic"):
                return dict(t="boom", calls=r["calls"])
            o = dict(t="res", fams=[self.family(f) for f in r["families"]], calls=r["calls"], text=0)
            if "text" in r:
                o.update(text=self.text(r["text"]), display=[self.text(x) for x in r["display"]], lines=[[self.text(x) for x in l] for l in r["lines"]])
            return o
        if op == "into_vec":
            return dict(t="vecs", a=[self.family(f) for f in r[0]], b=[self.family(f) for f in r[1]])
        if op in ("l_iter", "l_get", "hold_iter", "hold_vec", "hold_get"):
            return dict(t="labels", l=self.pairs(r))
        if op == "held_read":
            return dict(t="dangling") if r == "dangling" else dict(t="labels", l=self.pairs(r))
        if op == "held_freed":
            return dict(t="bool", b=r)
        if op == "l_len":
            return dict(t="len", n=clamp(r["len"]), e=r["empty"])
        if op == "label_new":
            return dict(t="label", name=self.str(r["name"]), value=self.str(r["value"]), text=self.str(r["text"]))
        if op == "quantile_new":
            return dict(t="q", v=self.num(r[0]))
        if op == "ts_get":
            return dict(t="ts", a=ts(r[0]), b=ts(r[1]))
        if op == "read":
            if isinstance(r, str):
                return dict(t="f", v=self.num(r))
            if isinstance(r, int):
                return dict(t="i", n=clamp(r))
            if r and isinstance(r[0][1], str):
                return dict(t="fp", l=self.fpairs(r))
            return dict(t="fc", l=self.fcounts(r)) if r else dict(t="none")
        if op in ("track_end", "time_end"):
            return dict(t="tok", n=r)
        if op == "dur_secs":
            return dict(t="f", v=self.num(r))
        if op == "compare":
            return dict(t="cmp", eq=r["eq"], cmp=r["cmp"], part=r["part"], hash=r.get("hash", []), shown=[self.str(x) for x in r.get("shown", [])])
        if op == "display":
            return dict(t="text", s=self.text(r["text"]), d=self.desc(r["desc"]))
        if op == "display_labels":
            return dict(t="texts", all=self.str(r["all"]), each=[self.str(x) for x in r["each"]], l=self.pairs(r["l"]))
        raise ValueError("ret of %s: %r" % (op, r))

    def event(self, e):
        op = e["op"]
        o = dict(op=op, ret=self.ret(op, e["ret"]))
        for k in ("h", "to", "g", "r", "from", "b", "c", "it", "keep", "tok", "n"):
            if k in e and isinstance(e[k], int):
                o[k] = e[k]
        if op in ("bset", "mb_set"):
            o.update(what=e["what"], a=self.str(e["a"]) if "a" in e else 0, r=e.get("r", 0))
            o["v"] = self.str(e["v"]) if e["what"] in ("namespace", "subsystem", "help", "label") else 0
            if op == "bset":
                x = e.get("v")
                o["x"] = [] if o["v"] or x is None else [self.num(y) for y in x] if isinstance(x, list) else [self.num(x)]
                if o["what"] == "bucket":
                    o["what"] = "buckets"
            return o
        if op in ("bld", "new"):
            o.update(kind=e["kind"], name=self.str(e["name"]), win=dur(e.get("win", 0)))
            if op == "bld":
                o.update(via=e.get("via", 0), layout="none", start=0, width=0, cnt=0)
                if "lin" in e:
                    o.update(layout="lin", start=self.num(e["lin"][0]), width=self.num(e["lin"][1]), cnt=e["lin"][2])
                if "exp" in e:
                    o.update(layout="exp", start=self.num(e["exp"][0]), width=self.num(e["exp"][1]), cnt=e["exp"][2])
            return o
        if op == "mb_new":
            o.setdefault("r", 0)
        if op == "register_script":
            def script(x):
                return [[0] if s is None else [-1] if s == "panic" else s for s in x]
            o["script"] = script(e["script"])
            o["acts"] = [[dict(r=a["r"], h=a.get("h", 0), c=a.get("c", 0), script=script(a.get("script", []))) for a in l] for l in e.get("acts", [])]
        if op in ("add", "sub", "set", "observe", "observe_many", "quantile_new"):
            o["v"] = self.num(e["v"])
        if op == "observe_many":
            o["n"] = e["n"]
        if op == "observe_all":
            o["vs"] = [self.num(v) for v in e["vs"]]
        if op == "add_u64":
            o["v"] = self.num("u:" + e["u"])
        if op == "inc":
            o["n"] = e.get("n", 1)
        if op == "read":
            o["what"] = e["what"]
        if op in ("l_insert", "label_new"):
            o.update(a=self.str(e["a"]), v=self.str(e["v"]))
        if op in ("l_remove", "l_get", "hold_get"):
            o["a"] = self.str(e["a"])
        if op == "ts_set":
            o["v"] = ts("i:%d" % (e["v"] if isinstance(e["v"], int) else int(e["v"][2:])))
        if op == "ts_set_time":
            s = int(e["s"][2:]) if isinstance(e["s"], str) else e["s"]
            n = -1 if e.get("neg") else 1
            ms = n * (s * 1000 + e["ns"] // 1000000)
            o["v"] = ts("i:%d" % ms)
            o["s"], o["ns"], o["neg"] = clamp(s), e["ns"], bool(e.get("neg"))
            o["small"] = s < 2 ** 31
        if op == "compare":
            o.update(what=e["what"], hs=e.get("hs", []), ls=self.pairs(e.get("ls", [])), qs=[self.num(q) for q in e.get("qs", [])])
        if op == "dur_secs":
            o.update(s=self.num("u:" + e["s"]), n=e["ns"])
        if op == "advance":
            o["d"] = dur(e["ns"])
        if op == "step_wall":
            o["w"] = dict(s=clamp(e["s"]), n=e["ns"])
        if op in ("track_end", "time_end"):
            o.update(tok=e["tok"], panic=e["panic"])
        if op == "gather":
            o["keep"] = e.get("keep", 0)
            o["perm"] = e.get("perm", 0)
        return o

    def trace(self, t, clock):
        return dict(id=t["id"], mono=dur(0), wall=dict(s=clock[1], n=clock[2]), ev=[self.event(e) for e in t["events"]])


class GenEnc(Enc):
    """The alphabet of calls of a world (Gen.tla)."""

    def ret(self, op, r):
        return dict(t="ok")

    def world(self, w, depth):
        d = dict(alphabet=[self.event(dict(o, ret="ok")) for o in w["alphabet"]], setup=[self.event(dict(o, ret="ok")) for o in w["setup"]], depth=depth, initial=w["initial"],
                 wall=dict(s=w["clock"][1], n=w["clock"][2]))
        d.update(self.dump())
        return d


class ProcEnc(Tables):
    family = Enc.family
    pairs = Enc.pairs
    fpairs = Enc.fpairs
    fcounts = Enc.fcounts

    def figures(self, f):
        return dict(ticks=f["ticks"], hz=f["hz"], vm=0 if f["vm"] == "none" else self.num(f["vm"]), rss=0 if f["rss"] == "none" else self.num(f["rss"]))

    def trace(self, t, clock):
        evs = []
        for e in t["events"]:
            r = e["ret"]
            o = {k: v for k, v in e.items() if k != "ret"}
            o["ret"] = dict(t=r) if isinstance(r, str) else dict(t="res", fams=[self.family(f) for f in r["families"]], before=self.figures(r["before"]), after=self.figures(r["after"]))
            evs.append(o)
        return dict(id=t["id"], ev=evs)


class ConcEnc(Enc):
    """Histories of calls and returns (Conc.tla)."""

    def trace(self, t, clock):
        evs, out = t["events"], []
        # what each position is about
        ret_of, open_, now, clocks = {}, {}, 0, []
        stack = {}
        begun = {}
        for i, e in enumerate(evs):
            clocks.append(now)
            if e.get("op") == "advance":
                now += e["ns"]
            if e.get("ev") == "call":
                open_[e["th"]] = i
                if e["op"].endswith("_begin"):
                    stack.setdefault(e["th"], []).append(i)
                if e["op"].endswith("_end"):
                    begun[i] = stack[e["th"]].pop()
            elif e.get("ev") == "ret":
                ret_of[open_.pop(e["th"])] = i
        clocks.append(now)

        def between(i):
            return sorted(set(clocks[i:(ret_of[i] if i in ret_of else len(evs)) + 1]))
        pos, joined, threads = {}, False, False
        for i, e in enumerate(evs):
            if e.get("op") in ("advance", "step_wall"):
                if e.get("ev") != "ret":
                    out.append(dict(self.event(dict(e, ret="ok")), ev="seq"))
                continue
            if e.get("ev") == "call":
                threads = True
                r = evs[ret_of[i]]["ret"] if i in ret_of else "ok"
                x = self.event(dict(e, ret=r))
                x.update(ev="call", th=e["th"], clocks=[dur(c) for c in between(i)])
                if e["op"] == "time_end":
                    x["els"] = [dur(d) for d in sorted({b - a for a in between(begun[i]) for b in between(i)})]
                out.append(x)
                pos[i] = len(out)
            elif e.get("ev") == "ret":
                c = next(k for k, v in ret_of.items() if v == i)
                if c not in pos:        # of a moved clock
                    continue
                out.append(dict(ev="ret", th=e["th"], j=pos[c]))
            else:
                if threads and not joined:
                    joined = True
                    out.append(dict(ev="join"))
                out.append(dict(self.event(e), ev="seq"))
        if not joined:
            out.append(dict(ev="join"))
        return dict(id=t["id"], mono=dur(0), wall=dict(s=clock[1], n=clock[2]), ev=out)


class TotalEnc(Tables):
    """What Total.tla knows of a log: the calls, and what sort of answer each got."""

    def call(self, e):
        def nan(v):
            return isinstance(v, str) and v[0] == "f" and bits2f(v) != bits2f(v)
        v = e.get("v", e.get("vs"))
        return dict(op=e["op"], h=e.get("h", 0), to=e.get("to", 0), b=e.get("b", 0), kind=e.get("kind", NONE), panic=e.get("panic", False),
                    nan=e["op"].startswith("observe") and any(nan(x) for x in (v if isinstance(v, list) else [v])),
                    min=e["op"] == "ts_set" and v == "i:%d" % -2 ** 63)

    def trace(self, t, clock):
        evs = []
        for e in t["events"]:
            o = dict(ev=e.get("ev", "seq"), th=e.get("th", -1))
            if "ret" in e:
                o["t"] = "panic" if e["ret"] == "panic" else "boom" if isinstance(e["ret"], dict) and e["ret"].get("panic") else "err" if e["ret"] in ("InvalidInput", "Other") else "value"
            if "op" in e:
                o.update(self.call(e))
            evs.append(o)
        return dict(id=t["id"], ev=evs + [dict(ev="end")])
