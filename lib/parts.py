"""What each check does: a list of parts per property."""
import collections
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

import alpha
import cgen
import design
import enc
import gen
import shim
import vf


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations, self.known, self.assumptions = [], [], []
        self._driver = self._conc = None

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def driver(self):
        if not self._driver:
            self._driver = vf.build_driver()
        return self._driver

    def conc(self):
        if not self._conc:
            self._conc = shim.build()
        return self._conc

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violate(self, what, name, data):
        path = vf.write_replay(self.prop, "%d-%s" % (len(self.violations), name), data)
        self.violations.append((what, path))

    def evidence(self, wall):
        os.makedirs(os.path.join(vf.ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        with open(os.path.join(vf.ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def events_of(logs):
    return sum(len(l["events"]) for l in logs)


def judge(ctx, name, programs, logs, props=None, module="Trace", key="sequential", mode="run", args=(), **kw):
    """Validates logs and records what happened."""
    rej, ok, states, trans = vf.validate("%s-%s" % (ctx.prop, name), logs, programs, props or [ctx.prop], module=module, **kw)
    ctx.add("states", states)
    ctx.add("transitions", trans)
    ctx.add("traces_validated_against_impl", ok)
    ctx.add(key + "_traces", len(logs))
    ctx.add(key + "_events", events_of(logs))
    by = {l["id"]: l for l in logs}
    pr = {p["id"]: p for p in programs}
    for i, pos in sorted(rej.items())[:3]:
        l = by[i]
        if "crash" in l:
            what = l["crash"]
        else:
            what = "log %s is no behaviour of the specification at event %d: %s" % (i, pos, json.dumps(l["events"][min(pos, len(l["events"])) - 1])[:600])
        ctx.violate(what, name, dict(property=ctx.prop, props=props, kind=name, module=module, mode=mode, args=list(args), program=pr[i], log=l, position=pos, what=what))
    if logs:
        l = min(logs, key=lambda l: abs(len(l["events"]) - 8))
        ctx.sample(dict(part=name, id=l["id"], events=l["events"][:12]))
    return rej


def worlds(quick=1500, thorough=40000):
    """Every history of small worlds, as TLC finds them in the specification, performed by the real crate."""
    def part(ctx):
        ws = list(alpha.WORLDS[ctx.prop]())
        rng = random.Random(ctx.seed)
        share = max(1, ctx.n(quick, thorough) // len(ws))

        def one(w):
            depth = w["depth"]["quick" if ctx.quick else "thorough"]
            hs, states = vf.histories(ctx.prop + "-" + w["name"], enc.GenEnc().world(w, depth))
            return w, depth, hs, states

        with ThreadPoolExecutor(vf.CPUS) as ex:
            found = list(ex.map(one, ws))
        programs = []
        cov = ctx.cov.setdefault("worlds", [])
        for w, depth, hs, states in found:
            ctx.add("states", states[1])
            ctx.add("transitions", states[0])
            every = len(hs) <= share
            take = hs if every else rng.sample(hs, share)
            cov.append(dict(world=w["name"], depth=depth, calls=len(w["alphabet"]), states=states[1], transitions=len(hs), performed=len(take)))
            for k, h in enumerate(take):
                ops = w["setup"] + alpha.nested([w["alphabet"][i - 1] for i in h]) + w["suffix"]
                programs.append(dict(id="%s-%d" % (w["name"], k), ops=ops, clock=w["clock"]))
        args = ["--quarantine"] if ctx.prop == "C18" else []
        logs = vf.run_driver(ctx.driver(), programs, args=args)
        judge(ctx, "worlds", programs, logs, key="enumerated", args=args)
    return part


def fixed(fn):
    """Programs that do not depend on the seed."""
    def part(ctx):
        ps = fn()
        logs = vf.run_driver(ctx.driver(), ps)
        judge(ctx, fn.__name__, ps, logs, key="enumerated")
    return part


def strings(ctx):
    ps = alpha.c13_programs(ctx.quick)
    logs = vf.run_driver(ctx.driver(), ps)
    ctx.cov["strings_tried"] = len(alpha.strings(ctx.quick))
    judge(ctx, "strings", ps, logs, key="enumerated")


ENC = {"Trace": enc.Enc, "Proc": enc.ProcEnc, "Conc": enc.ConcEnc, "Total": enc.TotalEnc}


def conc(fn, quick, thorough, args=(), scale=(1, 8), module="Conc", props=None):
    """Concurrent programs: all schedules with few preemptions and random ones; every history against Conc.tla."""
    def part(ctx):
        ps = cgen.make(fn, ctx.seed, ctx.n(quick, thorough), scale=scale[0] if ctx.quick else scale[1])
        exe, why = ctx.conc()
        if why:
            ctx.cov["uncontrolled"] = "operations do not overlap, since the source does not compile against the controlled std: " + why
        explore(ctx, "conc-" + fn.__name__, ps, exe, args, module, props)
    return part


def small(quick=400, thorough=3000):
    """Every program of two threads with at most two operations each from a small alphabet, under schedules with at most three preemptions."""
    def part(ctx):
        every = cgen.systematic(ctx.prop, ctx.n(1, 4))
        rng = random.Random(ctx.seed)
        first = [p for n, p in every if n <= 2]
        rest = [p for n, p in every if n > 2]
        k = max(0, ctx.n(quick, thorough) - len(first))
        ps = first + (rest if len(rest) <= k else rng.sample(rest, k))
        ctx.cov["small_programs"] = dict(there_are=len(every), performed=len(ps))
        explore(ctx, "small", ps, ctx.conc()[0])
    return part


def explore(ctx, name, ps, exe, args=(), module="Conc", props=None):
    ans = vf.run_conc(exe, ps, args, timeout=ctx.n(240, 2400))
    logs, progs = [], []
    late = 0
    for p in ps:
        a = ans[p["id"]]
        late += bool(a.get("late"))
        for k in ("runs", "exhausted"):
            ctx.add({"runs": "schedules_run", "exhausted": "programs_exhausted_within_preemption_bound"}[k], int(a[k]))
        ctx.cov["longest_schedule"] = max(ctx.cov.get("longest_schedule", 0), a["steps"])
        if a.get("crash"):
            ctx.violate("%s: %s" % (p["id"], a["crash"]), name, dict(property=ctx.prop, kind=name, module=module, mode="conc", args=list(args), program=p, what=a["crash"]))
        if a["hang"]:
            h = a["hang"]
            ctx.violate("%s hangs: %s, after %s" % (p["id"], h["why"], json.dumps(h["events"][-4:])), name,
                        dict(property=ctx.prop, kind=name, module=module, mode="conc", args=list(args), program=p, what=h))
        for h in a["hists"]:
            logs.append(h)
            progs.append(dict(id=h["id"], clock=p["clock"], program=p))
    if late:
        ctx.cov["programs_without_answer"] = late
    ctx.add("concurrent_programs", len(ps))
    judge(ctx, name, progs, logs, props, module=module, key="concurrent", mode="conc", args=args, encoder=ENC[module])


def seq(fn, quick, thorough, props=None, args=(), module="Trace", mode="run", **kw):
    def part(ctx):
        ps = gen.make(fn, ctx.seed, ctx.n(quick, thorough), **kw)
        logs = vf.run_driver(ctx.driver(), ps, args=args, mode=mode)
        judge(ctx, fn.__name__ + "".join("-" + k for k in kw), ps, logs, props, module=module, mode=mode, args=args, encoder=ENC[module])
        ops = collections.Counter(e["op"] for l in logs for e in l["events"])
        d = ctx.cov.setdefault("operations", {})
        for k, v in ops.items():
            d[k] = d.get(k, 0) + v
    return part


def every(args=("--quarantine",)):
    """Some of every kind of program there is, and the ones made for this (C20): does every call answer, and how?"""
    fns = [(f, {}) for f in (gen.c01, gen.c02, gen.c03, gen.c04, gen.c06, gen.c07, gen.c08, gen.c09, gen.c10, gen.c11, gen.c12, gen.c13, gen.c14, gen.c15, gen.c18, gen.c19)]
    fns += [(gen.c08, dict(dflt=True)), (gen.c20, {})]
    cfns = [cgen.c01, cgen.c02, cgen.c03, cgen.c05, cgen.c06, cgen.c08, cgen.c12, cgen.c15, cgen.c16, cgen.c18, cgen.c20]

    def part(ctx):
        ps = []
        for k, (f, kw) in enumerate(fns):
            n = ctx.n(60, 2000) * (6 if f is gen.c20 else 1)
            ps += [dict(p, id="%d-%s" % (k, p["id"])) for p in gen.make(f, ctx.seed, n, **kw)]
        logs = vf.run_driver(ctx.driver(), ps, args=args)
        judge(ctx, "every", ps, logs, module="Total", args=args, encoder=enc.TotalEnc)
        if ctx.violations:
            return
        exe, why = ctx.conc()
        if why:
            ctx.cov["uncontrolled"] = "operations do not overlap, since the source does not compile against the controlled std: " + why
        ps = [p for k, f in enumerate(cfns) for p in (dict(p, id="%d-%s" % (k, p["id"])) for p in cgen.make(f, ctx.seed, ctx.n(150, 3000) if f is cgen.c20 else ctx.n(30, 600), scale=ctx.n(1, 4)))]
        explore(ctx, "conc-every", ps, exe, args, "Total")
    return part


def replay(path):
    d = json.load(open(path))
    m = d.get("module", "Trace")
    if d.get("mode") == "conc":
        return replay_conc(d)
    logs = vf.run_driver(vf.build_driver(), [d["program"]], args=d.get("args", ()), mode=d.get("mode", "run"))
    print(json.dumps(logs[0], indent=1))
    rej, *_ = vf.validate("replay", logs, [d["program"]], d.get("props") or [d["property"]], module=m, encoder=ENC[m])
    print("REJECTED at event %s" % list(rej.values())[0] if rej else "accepted")
    return 1 if rej else 0


def replay_conc(d):
    p = d["program"].get("program", d["program"])
    ctx = Ctx(d["property"], 1, "quick")
    a = vf.run_conc(ctx.conc()[0], [p], d.get("args", ()))[p["id"]]
    if a.get("crash") or a["hang"]:
        print(json.dumps(dict(crash=a.get("crash"), hang=a["hang"]), indent=1))
        return 1
    rej, *_ = vf.validate("replay", a["hists"], [dict(id=h["id"], clock=p["clock"]) for h in a["hists"]], d.get("props") or [d["property"]], module=d["module"], encoder=ENC[d["module"]])
    for h in a["hists"]:
        if h["id"] in rej:
            print("REJECTED at event %s" % rej[h["id"]])
            for e in h["events"]:
                print("  " + json.dumps(e))
            return 1
    print("%d histories accepted" % len(a["hists"]))
    return 0


# The histories known_findings.txt may name.
def dangling(hold, change):
    ops = [dict(op="bld", b=1, kind="counter", name="m", win=1), dict(op="bset", b=1, what="label", a="a", v="x"), dict(op="bset", b=1, what="label", a="b", v="y"),
           dict(op="fin", b=1, h=2), dict(op="clone", h=2, to=3),
           dict(op="hold_get", it=1, h=2, a="a") if hold == "get" else dict(op="hold_vec", it=1, h=2),
           dict(op="held_read", it=1),
           dict(insert=dict(op="l_insert", h=3, a="a", v="z"), remove=dict(op="l_remove", h=3, a="a"), clear=dict(op="l_clear", h=3))[change],
           dict(op="held_read", it=1)]
    return dict(id="%s-%s" % (hold, change), ops=ops, clock=[10 ** 12, 0, 0])


KNOWN = {"C18": [dangling(a, b) for a in ("get", "collect") for b in ("insert", "remove", "clear")]}


def listed(prop):
    """The findings listed for a property: history -> what fails"""
    out = {}
    for line in open(os.path.join(vf.ROOT, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) history=(\S+) (.*)$", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def known(args=()):
    """Performs the histories that known_findings.txt may name: one that ends in what is listed is reported as known."""
    def part(ctx):
        ps = KNOWN[ctx.prop]
        logs = vf.run_driver(ctx.driver(), ps, args=args)
        rej, ok, states, trans = vf.validate(ctx.prop + "-known", logs, ps, [ctx.prop])
        ctx.add("known_histories", len(ps))
        ctx.add("states", states)
        ctx.add("transitions", trans)
        ctx.add("traces_validated_against_impl", ok)
        have = listed(ctx.prop)
        for l in logs:
            pos = rej.get(l["id"])
            if pos is None:
                continue
            if l["id"] in have and pos == len(l["events"]) and l["events"][-1]["ret"] == "dangling":
                ctx.known.append("%s: %s" % (l["id"], have[l["id"]]))
            else:
                ctx.violate("history %s is no behaviour of the specification at event %s" % (l["id"], pos), "known-" + l["id"],
                            dict(property=ctx.prop, kind="known", module="Trace", mode="run", args=list(args), program=[p for p in ps if p["id"] == l["id"]][0],
                                 log=l, position=pos))
    return part


SEQ = "sequential logs of the real crate validated against Trace.tla"
WLD = "every history of small worlds enumerated by TLC and replayed in the real crate"
CNC = "controlled schedules of the real source (random programs, and systematically those of two threads with two operations) validated against Conc.tla (internal moments)"
DES = "design-level model of the algorithm"
TECH = {
    "C01": [WLD, SEQ, CNC, DES], "C02": [WLD, SEQ, CNC, DES], "C03": [WLD, SEQ, CNC], "C04": [WLD, SEQ], "C05": [CNC, DES],
    "C06": [WLD, SEQ, CNC, DES], "C07": [WLD, SEQ], "C08": [WLD, SEQ, CNC, DES], "C09": [WLD, SEQ], "C10": [WLD, SEQ],
    "C11": [WLD, SEQ + " and Text.tla (a parser of the exposition format)"], "C12": [WLD, SEQ, CNC, DES], "C13": ["all short strings and " + SEQ],
    "C14": [WLD, SEQ], "C15": [WLD, SEQ, CNC], "C16": [CNC, DES], "C17": ["logs of a real process being changed validated against Proc.tla"],
    "C18": [WLD, SEQ + " under a quarantining allocator", CNC], "C19": [SEQ], "C20": ["logs of all kinds of programs validated against Total.tla"],
    "C21": [SEQ, CNC],
}
B_SEQ = "every return of every explored program of the real crate is what the specification says; bounded by the worlds' depth and by what the seeded generators write"
B_CNC = "every history of the explored schedules (all with at most two preemptions up to a cap, then random and PCT) has an explanation in the specification; sequentially consistent interleavings of std::sync operations and clock reads only"
NOTE = {
    "C01": "Fractional parts are judged with one ulp per addition, whole amounts below 2^64 exactly. ",
    "C02": "Judged bit for bit, with exact binary64 arithmetic. ",
    "C04": "Computed bounds may be within 2 (linear) or i+2 (exponential) ulps of the exact value. ",
    "C17": "Linux only, as the collector is; CPU time within a tick, memory within a margin, of figures read before and after. ",
    "C18": "Dangling references are told by an allocator that fills and keeps freed memory. The known finding (a reference outlives its Labels borrow) is listed. ",
    "C20": "A call that has not returned in 40 s, or a schedule with no end within its step limit, counts as one that does not return. ",
}


def technique(p):
    return "TLA+ specification checked with TLC: " + "; ".join(TECH[p])


def note(p):
    return NOTE.get(p, "") + "; ".join(x for x, y in ((B_SEQ, p not in ("C05", "C16")), (B_CNC, CNC in TECH[p] or p == "C20")) if y).capitalize().replace("pct", "PCT") + \
        ". Trusted: the driver that logs calls, the virtual clock, TLC."


# What goes on as ever after a panic.
AFTER = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C12", "C15", "C16"]

PARTS = {
    "C01": [worlds(), seq(gen.c01, 600, 20000), conc(cgen.c01, 200, 4000), small(), design.part("Cell")],
    "C02": [worlds(), seq(gen.c02, 600, 20000), conc(cgen.c02, 200, 4000), small(), design.part("Cell")],
    "C03": [worlds(), seq(gen.c03, 600, 20000), conc(cgen.c03, 200, 4000), small()],
    "C04": [worlds(), fixed(gen.c04_long), fixed(gen.c04_crowds), seq(gen.c04, 600, 20000)],
    "C05": [conc(cgen.c05, 300, 5000), small(), design.part("Observe")],
    "C06": [worlds(), fixed(gen.c06_crowds), seq(gen.c06, 400, 10000), conc(cgen.c06, 200, 4000), design.part("Window")],
    "C07": [worlds(), fixed(gen.c07_positions), fixed(gen.c07_crowds), seq(gen.c07, 400, 10000)],
    "C08": [worlds(), fixed(gen.c08_crowds), seq(gen.c08, 500, 20000), seq(gen.c08, 100, 4000, dflt=True), conc(cgen.c08, 150, 4000), design.part("Gather")],
    "C09": [worlds(), fixed(gen.c09_groups), seq(gen.c09, 400, 10000)],
    "C10": [worlds(), seq(gen.c10, 200, 4000)],
    "C11": [worlds(), fixed(gen.c11_long), seq(gen.c11, 400, 10000)],
    "C12": [worlds(), fixed(gen.c12_crowds), seq(gen.c12, 600, 20000), conc(cgen.c12, 200, 4000), small(), design.part("Cow")],
    "C13": [strings, fixed(gen.c13_long), seq(gen.c13, 800, 20000)],
    "C14": [worlds(), fixed(gen.c14_settings), seq(gen.c14, 600, 20000)],
    "C15": [worlds(), fixed(gen.c15_powers), seq(gen.c15, 600, 20000), conc(cgen.c15, 200, 4000), small()],
    "C16": [conc(cgen.c16, 400, 6000), small(), design.part("Cow")],
    "C17": [seq(gen.c17, 120, 3000, module="Proc", mode="process")],
    "C18": [worlds(), seq(gen.c18, 600, 20000, args=["--quarantine"]), conc(cgen.c18, 60, 1000, args=["--quarantine"]), known(["--quarantine"])],
    "C19": [seq(gen.c19, 300, 8000)],
    "C20": [every()],
    "C21": [seq(gen.c21, 500, 5000, props=AFTER), seq(gen.c08, 150, 2500, props=AFTER, booms=True), conc(cgen.c21, 150, 1500, props=AFTER)],
}


def run(ctx):
    for part in PARTS[ctx.prop]:
        part(ctx)
        if ctx.violations:
            break
