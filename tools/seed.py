#!/usr/bin/env python3
"""Seeded bugs.  seed.py make SPEC.py [id..]  | seed.py check [id..] | seed.py confirm [id..]  (works in /repo, restores it afterwards)

make: applies each bug of the spec, confirms that it builds, passes the stable tests and that its demo tells it from the
unchanged tree, and writes seeded/<id>/.   check: runs the property's check against each seeded bug.
"""
import json, os, re, subprocess, sys, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get("SEED_DIR") or os.path.join(ROOT, "seeded")   # SEED_DIR: changes that are not kept (they touch lines of fix commits)
REPO = "/repo"
BASE = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
def sh(cmd, cwd=REPO, timeout=1200, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, timeout=timeout, **kw)
def restore():
    sh("git checkout -- .")
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
structmeta = { path = "$repo/structmeta" }
syn = { version = "3.0.0", features = ["full", "extra-traits"] }
proc-macro2 = { version = "1", features = ["span-locations"] }
quote = "1"
[profile.dev]
debug = 0
EOF
export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 99
'''
RUN = "timeout 120 cargo run --offline -q\n"
MUSTFAIL = 'cargo build --offline -q 2> "$t/err" && { echo "an ill-formed declaration compiles"; exit 1; }\ngrep -q "PATTERN" "$t/err" || { cat "$t/err"; exit 1; }\nexit 0\n'
def demo_text(b):
    if "edition" in b: return demo_text({k: v for k, v in b.items() if k != "edition"}).replace('edition = "2024"', f'edition = "{b["edition"]}"')
    k = b.get("demo_kind", "run")
    if k == "run": return DEMO + RUN
    if k == "build": return DEMO + "cargo build --offline -q\n"
    if k == "mustfail": return DEMO + MUSTFAIL.replace("PATTERN", b["pattern"])
    return DEMO + b["demo_sh"]
def demo(d):
    p = sh(["bash", os.path.join(d, "demo.sh")], timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]
def blame_ok(patch):
    """the removed lines come from the original repository"""
    n, cur, line = 0, None, 0
    bad = []
    for l in patch.splitlines():
        if l.startswith("--- "): cur = l[6:]
        elif l.startswith("@@"): line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            o = sh(["git", "blame", "-l", "--root", "-s", "-L", f"{line},{line}", "HEAD", "--", cur]).stdout
            (bad.append(l) if not o.lstrip("^").startswith(BASE[:38]) else None)
            n += 1; line += 1
        elif l.startswith(" ") or l == "": line += 1
    return n, bad
def make(spec, ids):
    s = importlib.util.spec_from_file_location("spec", spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(next(stable[k] for k in ("passed", "pass", "stable", "tests") if k in stable))
    for b in m.BUGS:
        if ids and b["id"] not in ids: continue
        d = os.path.join(SEED, b["id"])
        if not ids and os.path.exists(os.path.join(d, "meta.json")): continue
        restore()
        try:
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f); t = open(p).read()
                if t.count(old) != 1:
                    print(b["id"], "EDIT does not apply:", t.count(old), old[:60]); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok: continue
            patch = sh("git diff").stdout
            n, bad = blame_ok(patch)
            if not n and not bad:      # only additions: continue an original line instead
                f, old, new = b["edits"][0]
                p = os.path.join(REPO, f); t = open(p).read()
                k = new.rfind("\n", 0, len(os.path.commonprefix([old, new])))
                at = t.index(new) + k
                t = t[:at] + " " + t[at:].lstrip()
                open(p, "w").write(t)
                patch = sh("git diff").stdout
                n, bad = blame_ok(patch)
            if (bad and "SEED_DIR" not in os.environ) or not n: print(b["id"], "BLAME", n, bad); continue
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print(b["id"], "BUILD\n", r.stderr[-1500:]); continue
            sh("bash /opt/vp/test.sh /tmp/o.json")
            o = json.load(open("/tmp/o.json"))
            got = set(next(o[k] for k in ("passed", "pass") if k in o))
            if stable - got: print(b["id"], "TESTS FAIL", list(stable - got)[:5]); continue
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "main.rs"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(demo_text(b))
            rc, out = demo(d)
            restore()
            rc0, out0 = demo(d)
            if rc == 0 or rc == 124 or rc0 != 0:
                print(b["id"], "DEMO patched", rc, out, "\nunpatched", rc0, out0)
                continue
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(b["id"], "made", flush=True)
        finally:
            restore()
def check(ids):
    for i in sorted(os.listdir(SEED)):
        if ids and i not in ids: continue
        d = os.path.join(SEED, i)
        if not os.path.exists(os.path.join(d, "meta.json")): print(i, "INCOMPLETE"); continue
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        restore()
        r = sh(["git", "apply", os.path.join(d, "patch.diff")])
        if r.returncode: print(i, "PATCH does not apply"); continue
        try:
            p = sh(["./run.sh", prop], cwd=ROOT)
            hit = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
            print(i, prop, "caught" if hit else f"MISSED rc={p.returncode} {p.stderr[-300:]}", "|", p.stdout.split("\n")[0][:110], flush=True)
        finally:
            restore()
def confirm(ids):
    """builds, passes the stable tests, and the demo tells it from the unchanged tree"""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in sorted(os.listdir(SEED)):
        if ids and i not in ids: continue
        d = os.path.join(SEED, i)
        restore()
        try:
            n, bad = blame_ok(open(os.path.join(d, "patch.diff")).read())
            if sh(["git", "apply", os.path.join(d, "patch.diff")]).returncode: print(i, "PATCH does not apply"); continue
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print(i, "BUILD", r.stderr[-800:]); continue
            sh("bash /opt/vp/test.sh /tmp/o.json")
            o = json.load(open("/tmp/o.json"))
            lost = stable - set(next(o[k] for k in ("passed", "pass") if k in o))
            rc, out = demo(d)
            restore()
            rc0, out0 = demo(d)
            print(i, "ok" if n and not bad and not lost and rc not in (0, 124) and rc0 == 0 else f"WRONG blame {n} {bad} lost {list(lost)[:3]} demo {rc} {rc0} {out0[-300:]}", flush=True)
        finally:
            restore()
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "confirm": confirm(sys.argv[2:])
    else: check(sys.argv[2:])
