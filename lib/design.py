"""The models of the crate's own algorithms (spec/design): each must hold as the crate does it, and TLC must reject each of
its faulty variants, for the reason given."""
import os
from concurrent.futures import ThreadPoolExecutor

import vf

# module -> (constants, invariants, temporal properties, faulty variants -> what each breaks)
MODELS = {
    "Cell": ({}, ["Linearizable"], ["Ends"], {"store": "Linearizable", "stale": "Linearizable", "once": "Linearizable"}),
    "Window": (dict(W=1, Last=3, NObs=2, NRead=1), ["Ordered", "Exact"], [],
               {"early clock": "Ordered", "unlocked": "Ordered", "inclusive": "Exact", "one at a time": "Exact", "observers prune": "Exact"}),
    "Cow": ({}, ["NothingLost", "Safe", "NoLeak"], ["Ends"], {"no mutex": "NothingLost", "blind": "NothingLost", "no rwlock": "Safe"}),
    "Gather": (dict(Gathers=2), ["Complete", "Clean", "Once", "Forgotten", "OneEach"], ["Ends"],
               {"late drain": "Complete", "one a time": "Complete", "skip": "Complete", "keep": "Forgotten", "stop": "Complete"}),
    "Observe": ({}, ["Monotone", "Between", "AtRest"], ["Ends"], {"split sum": "AtRest", "backwards": "Monotone"}),
}
DEEPER = {"Window": dict(W=1, Last=4, NObs=2, NRead=2), "Gather": dict(Gathers=3)}


def cfg(module, variant, consts, checks):
    d = os.path.join(vf.BUILD, "traces")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.cfg" % (module, variant.replace(" ", "_"), os.getpid()))
    with open(path, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Variant = \"%s\"\n" % variant)
        for k, v in consts.items():
            f.write("CONSTANT %s = %s\n" % (k, v))
        for c in checks:
            f.write(c + "\n")
    return path


def check(module, variant, deeper=False):
    consts, inv, temp, bad = MODELS[module]
    if deeper and not variant:
        consts = dict(consts, **DEEPER.get(module, {}))
    if variant:
        checks = ["INVARIANT " + bad[variant]]
        if module == "Window":
            consts = dict(consts, NObs=3)
    else:
        checks = ["INVARIANT " + x for x in inv] + ["PROPERTY " + x for x in temp]
    path = cfg(module, variant, consts, checks)
    try:
        code, out = vf.tlc(module, cfg=path, heap="4g", cwd=os.path.join(vf.SPEC, "design"))
    finally:
        os.remove(path)
    if variant:
        good = ("Invariant %s is violated" % bad[variant]) in out
    else:
        good = code == 0 and "No error has been found" in out
    if not good:
        raise vf.ToolError("design model %s, variant %r: TLC's answer is not the expected one:\n%s" % (module, variant, out[-3000:]))
    return vf.tlc_states(out)


def part(*modules):
    def design(ctx):
        todo = [(m, v) for m in modules for v in [""] + list(MODELS[m][3])]
        with ThreadPoolExecutor(vf.CPUS) as ex:
            res = list(ex.map(lambda x: check(x[0], x[1], not ctx.quick), todo))
        d = ctx.cov.setdefault("design_models", [])
        for (m, v), (trans, states) in zip(todo, res):
            ctx.add("states", states)
            ctx.add("transitions", trans)
            if not v:
                d.append(dict(model=m, states=states, checked=MODELS[m][1] + MODELS[m][2], faulty_variants_rejected=len(MODELS[m][3])))
    return design
