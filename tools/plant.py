#!/usr/bin/env python3
"""plant.py DEFS.py [ID..]: writes seeded/<id>/ from definitions (by hand, when planting bugs) and tries each one:
demo on the clean tree, with the patch, the stable tests with the patch, and the check of its property.
A definition is a dict: id, property, edits [(file, old, new)], main (a Rust program), needs, breaks; optional deps."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
pact_models = { path = "/repo/rust/pact_models", features = ["datetime", "xml", "form_urlencoded"] }
anyhow = "1"
bytes = "1"
chrono = { version = "0.4", default-features = false, features = ["std", "clock"] }
maplit = "1"
itertools = "0.14"
serde_json = "1"
rand = "0.8"
tokio = { version = "1", features = ["rt"] }
%s
[profile.dev]
debug = false

[patch.crates-io]
pact_models = { path = "/repo/rust/pact_models" }
onig = { path = "shims/onig" }
fs2 = { path = "shims/fs2" }
reqwest = { path = "shims/reqwest" }
md5 = { path = "shims/md5" }
'''
DEMO = '''#!/bin/bash
# builds the program beside this file against /repo and runs it: 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r "$here"/crate "$d"/crate || exit 3
cd "$d"/crate || exit 3
export CARGO_TARGET_DIR="$d"/target CARGO_NET_OFFLINE=true TZ=UTC
cargo build --offline --quiet || exit 3
mkdir "$d"/work && cd "$d"/work && "$d"/target/debug/demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def make(b):
    d = os.path.join(V, "seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d + "/crate")
    m = b.get("matching") or b.get("verifier")          # a demo that also uses pact_matching (and pact_verifier)
    for s in (sorted(os.listdir(os.path.join(V, "shims"))) if m else ("onig", "fs2", "reqwest", "md5")):
        shutil.copytree(os.path.join(V, "shims", s), d + "/crate/shims/" + s, ignore=shutil.ignore_patterns("target"))
    h = "harness_v" if b.get("verifier") else "harness_m" if m else "harness"
    shutil.copy(os.path.join(V, h, "Cargo.lock"), d + "/crate/Cargo.lock")
    s = open(d + "/crate/Cargo.lock").read().replace('name = "pact_conform%s"' % h[7:], 'name = "demo"')
    open(d + "/crate/Cargo.lock", "w").write(s)
    if m:
        cargo = open(os.path.join(V, h, "Cargo.toml")).read().replace('name = "pact_conform%s"' % h[7:], 'name = "demo"').replace('name = "conform%s"' % h[7:], 'name = "demo"').replace("src/main.rs", "main.rs").replace('"../shims', '"shims')
    else:
        cargo = CARGO % b.get("deps", "")
    open(d + "/crate/Cargo.toml", "w").write(cargo)
    open(d + "/crate/main.rs", "w").write(b["main"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean()
    for f, old, new in b["edits"]:
        p = os.path.join(R, "rust/pact_models/src", f) if not f.startswith("rust/") else os.path.join(R, f)
        t = open(p, newline="").read()
        if t.count(old) != 1:
            print(b["id"], "edit does not apply once:", t.count(old), old)
            clean()
            return None
        open(p, "w", newline="").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout)
    clean()
    return d


def trial(b, d, check=True):
    out = []
    r = sh(d + "/demo.sh", cwd=R)
    out.append("clean=%d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    if sh("git -C /repo apply %s/patch.diff" % d).returncode:
        return "patch does not apply"
    try:
        r = sh(d + "/demo.sh", cwd=R)
        out.append("patched=%d" % r.returncode)
        if r.returncode == 3:
            print(r.stdout[-2500:])
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant-tests.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/plant-tests.json"))
        lost = set(base["stable"]) - set(got["passed"])
        out.append("lost=%s" % (sorted(lost)[:4] if lost else 0))
        if check:
            r = sh("bin/check %s" % b["property"], cwd=V)
            caught = r.returncode == 1 and "VIOLATION property=%s" % b["property"] in r.stdout
            out.append("CAUGHT" if caught else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode not in (0, 1) else ""))
    finally:
        clean()
    return " ".join(out)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = make(b)
        if d:
            print(b["id"], b["property"], trial(b, d), flush=True)
