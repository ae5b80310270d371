"""Shared machinery of the checks: building, running the driver, running TLC, reporting."""
import atexit
import contextlib
import fcntl
import json
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from enc import Enc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % p], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode()
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("CARGO_TARGET_DIR", None)
    return env


def sh(cmd, cwd=ROOT, env=None, timeout=600, input=None):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, input=input, capture_output=True, text=True)


@contextlib.contextmanager
def locked(name):
    """One build at a time, should checks run at the same time."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def private(exe):
    """A copy of the executable for this process alone."""
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    to = os.path.join(d, "%s-%d" % (os.path.basename(exe), os.getpid()))
    shutil.copy2(exe, to)
    atexit.register(lambda: os.path.exists(to) and os.remove(to))
    return to


def build_driver():
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    with locked("driver"):
        p = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness/driver"), env=env)
        if p.returncode:
            raise ToolError("driver does not build:\n" + p.stderr[-3000:])
        return private(os.path.join(BUILD, "driver/debug/driver"))


def talk(cmd, programs, stall, total=10 ** 6):
    """Gives the programs to a process, one per line, and collects its answers; it is ended when it gives none for so long,
    or when it has taken so long in total.
    Returns (answers, exit code or "hang", stderr)."""
    with tempfile.TemporaryFile("w+") as inp, tempfile.TemporaryFile("w+") as err:
        inp.write("".join(json.dumps(x) + "\n" for x in programs))
        inp.seek(0)
        p = subprocess.Popen(cmd, cwd=ROOT, stdin=inp, stdout=subprocess.PIPE, stderr=err)
        answers, buf, hang, end = [], b"", False, time.monotonic() + total
        while True:
            if not select.select([p.stdout], [], [], max(0, min(stall, end - time.monotonic())))[0]:
                p.kill()
                hang = True
                break
            d = os.read(p.stdout.fileno(), 1 << 20)
            if not d:
                break
            *lines, buf = (buf + d).split(b"\n")
            answers += [json.loads(x) for x in lines if x]
        p.stdout.close()
        code = p.wait()
        err.seek(0)
        return answers, "hang" if hang else code, err.read()


def run_driver(exe, programs, args=(), stall=40, mode="run"):
    """Runs the programs, in parallel processes; one that dies or hangs gives its program a 'crash' log. After two of them
    the rest of its share is left out."""
    chunks = [programs[i::CPUS] for i in range(CPUS)]

    def one(chunk):
        logs, rest, dead = [], list(chunk), 0
        while rest and dead < 2:
            got, code, err = talk([exe, mode, *args], rest, stall)
            if code == 2:
                raise ToolError("driver: " + err[-2000:])
            logs += got
            rest = rest[len(got):]
            if rest:
                logs.append(dict(id=rest[0]["id"], crash="the process ended with %s while running this program" % (code,), events=[]))
                rest = rest[1:]
                dead += 1
        return logs

    with ThreadPoolExecutor(CPUS) as ex:
        res = [x for l in ex.map(one, chunks) for x in l]
    by = {x["id"]: x for x in res}
    return [by[p["id"]] for p in programs if p["id"] in by]


def run_conc(exe, programs, args=(), timeout=300):
    """Explores the programs' schedules, in parallel processes. Answers by id; a process that dies gives its program a
    'crash', one that does not answer in time 'late'."""
    chunks = [programs[i::CPUS] for i in range(CPUS)]

    def none(p, **k):
        return dict(dict(id=p["id"], hists=[], runs=0, steps=0, exhausted=False, hang=None, late=False, crash=None), **k)

    def one(chunk):
        res, rest, dead = [], list(chunk), 0
        while rest:
            got, code, err = talk([exe, *args], rest, timeout, timeout)
            if code == 2:
                raise ToolError("driver: " + err[-2000:])
            res += got
            rest = rest[len(got):]
            if rest and code not in ("hang", 3):
                res.append(none(rest[0], crash="the process ended with %s while running this program" % code))
                rest = rest[1:]
            dead += code != 0
            if code == "hang" or dead == 3:
                res += [none(x, late=True) for x in rest]
                rest = []
        return res

    with ThreadPoolExecutor(CPUS) as ex:
        return {x["id"]: x for l in ex.map(one, chunks) for x in l}


def tlc(module, cfg=None, env=None, workers=1, timeout=800, args=(), heap="2g", work=None, cwd=None):
    work = work or os.path.join(BUILD, "tlc")
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "meta-%s-%d-%d" % (module, os.getpid(), time.monotonic_ns()))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        p = sh(cmd, cwd=cwd or SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc_states(out):
    m = STATES.findall(out)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)


REJ = re.compile(r'<<"REJECTED", "([^"]*)", (\d+)>>')
VAL = re.compile(r'<<"VALIDATED", (\d+)>>')


def validate(name, logs, programs, props, module="Trace", encoder=Enc, shards=None, extra=None):
    """Checks the logs against the specification. Returns (rejected {id: position}, validated, states, transitions)."""
    work = os.path.join(BUILD, "traces")
    os.makedirs(work, exist_ok=True)
    clock = {p["id"]: p.get("clock", [0, 0, 0]) for p in programs}
    weight = [(len(l["events"]) + 1, l) for l in logs if "crash" not in l]
    weight.sort(key=lambda x: -x[0])
    k = min(shards or CPUS, max(1, len(weight) // 20 + 1))
    bins = [[0, []] for _ in range(k)]
    for n, l in weight:
        b = min(bins, key=lambda b: b[0])
        b[0] += n
        b[1].append(l)

    def one(i):
        enc = encoder()
        ts = [enc.trace(l, clock[l["id"]]) for l in bins[i][1]]
        d = enc.dump()
        d.update(traces=ts, props=list(props), **(extra or {}))
        path = os.path.join(work, "%s-%d-%d.json" % (name, os.getpid(), i))
        with open(path, "w") as f:
            json.dump(d, f)
        try:
            code, out = tlc(module, env={"TRACE": path}, workers=1)
        finally:
            if not os.environ.get("VERIF_KEEP"):
                os.remove(path)
        m = VAL.search(out)
        errs = [x for x in re.findall(r"^Error: (.*)$", out, re.M) if "ostcondition" not in x]
        if not m or errs:
            raise ToolError("TLC gave no verdict on %s:\n%s" % (path, out[-4000:]))
        return {a: int(b) for a, b in REJ.findall(out)}, int(m.group(1)), tlc_states(out)

    with ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, range(k)))
    rej = {}
    for r, _, _ in res:
        rej.update(r)
    for l in logs:
        if "crash" in l:
            rej[l["id"]] = -1
    return rej, sum(v for _, v, _ in res), sum(s[1] for _, _, s in res), sum(s[0] for _, _, s in res)


HIST = re.compile(r'<<"H", <<([\d, ]*)>>>>')


def histories(name, data, timeout=700):
    """What TLC finds in a small world (Gen.tla): the histories, one per transition, and its counts of states."""
    work = os.path.join(BUILD, "traces")
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "%s-%d-world.json" % (name, os.getpid()))
    with open(path, "w") as f:
        json.dump(data, f)
    try:
        code, out = tlc("Gen", env={"TRACE": path}, timeout=timeout)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            os.remove(path)
    if code:
        raise ToolError("the specification contradicts itself in world %s:\n%s" % (name, re.sub(r"<<.H.*\n", "", out)[-5000:]))
    return [[int(x) for x in h.split(",")] for h in HIST.findall(out)], tlc_states(out)


def write_replay(prop, what, data):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, what))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
