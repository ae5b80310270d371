"""The crate's own source, compiled against a replacement of the parts of `std` that threads synchronise through."""
import glob
import os
import re
import shutil

import vf

DIR = os.path.join(vf.BUILD, "shim")
PRE = "#![no_std]\n#![feature(prelude_import)]\n#![allow(warnings)]\n"
POST = """
#[macro_use]
extern crate std as real_std;
extern crate verif_std as std;
#[prelude_import]
#[allow(unused_imports)]
use real_std::prelude::rust_%s::*;
"""


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not (os.path.exists(path) and open(path).read() == text):
        with open(path, "w") as f:
            f.write(text)


def copy(src, dst, manifest, edition):
    files = {os.path.relpath(p, src) for p in glob.glob(src + "/**/*.rs", recursive=True)}
    for p in glob.glob(dst + "/src/**/*.rs", recursive=True):
        if os.path.relpath(p, dst + "/src") not in files:
            os.remove(p)
    for f in files:
        text = open(os.path.join(src, f)).read()
        if f == "lib.rs":
            # inner attributes and documentation stay first
            text = PRE + text + POST % edition
        write(os.path.join(dst, "src", f), text)
    write(os.path.join(dst, "Cargo.toml"), manifest)


def edition(manifest):
    m = re.search(r'^edition\s*=\s*"(\d+)"', manifest, re.M)
    return m.group(1) if m else "2015"


def make():
    dep = '\n[dependencies.verif_std]\npath = "%s"\n' % os.path.join(vf.ROOT, "harness/verif_std")
    man = open(os.path.join(vf.REPO, "Cargo.toml")).read()
    copy(os.path.join(vf.REPO, "src"), os.path.join(DIR, "prometrics"), man + dep, edition(man))
    cargo = os.environ.get("CARGO_HOME") or vf.cargo_env().get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    found = sorted(glob.glob(cargo + "/registry/src/*/atomic_immut-0.1.*"))
    if not found:
        raise vf.ToolError("no source of atomic_immut")
    v = found[-1].rsplit("-", 1)[1]
    copy(os.path.join(found[-1], "src"), os.path.join(DIR, "atomic_immut"),
         '[package]\nname = "atomic_immut"\nversion = "%s"\n[lib]\npath = "src/lib.rs"\n%s' % (v, dep), "2015")


PLAIN = """[package]
name = "conc"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "conc"
path = "%s/harness/conc/src/main.rs"
[features]
plain = []
[dependencies]
prometrics = { path = "%s" }
verif_std = { path = "%s/harness/verif_std" }
serde_json = "1"
libc = "0.2"
[profile.dev]
opt-level = 1
debug = "line-tables-only"
[workspace]
"""


def build():
    """The controlled driver and why it is only the plain one (operations interleave, but do not overlap), if it is."""
    env = vf.cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(vf.BUILD, "conc")
    env["RUSTC_BOOTSTRAP"] = "1"
    with vf.locked("conc"):
        make()
        p = vf.sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(vf.ROOT, "harness/conc"), env=env)
        exe = os.path.join(vf.BUILD, "conc/debug/conc")
        if not p.returncode:
            return vf.private(exe), ""
        why = p.stderr[-1500:]
        d = os.path.join(vf.BUILD, "plain")
        write(os.path.join(d, "Cargo.toml"), PLAIN % (vf.ROOT, vf.REPO, vf.ROOT))
        shutil.copy(os.path.join(vf.ROOT, "harness/conc/Cargo.lock"), os.path.join(d, "Cargo.lock"))
        env["CARGO_TARGET_DIR"] = os.path.join(vf.BUILD, "concplain")
        p = vf.sh(["cargo", "build", "--offline", "-q", "--features", "plain"], cwd=d, env=env)
        if p.returncode:
            raise vf.ToolError("the controlled driver does not build:\n" + p.stderr[-3000:])
        return vf.private(os.path.join(vf.BUILD, "concplain/debug/conc")), why
