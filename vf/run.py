#!/usr/bin/env python3
"""Checks one property:  python3 vf/run.py Cxx [--replay FILE]

Generates declarations (corpus.py), compiles them against /repo's working tree, lets the engine drive the
derived code and judge it, and turns the observations into a verdict and an evidence file.
exit 0 held / 1 violated (VIOLATION line) / 2 no verdict
"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import corpus
from shapes import PRELUDE

REPO = "/repo"
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
ENGINE = os.path.join(ROOT, "engine")

def env(extra=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.update(extra or {})
    return e

def message(line):
    """a line of the compiler's or of cargo's, if it is one; the code under test may print as well"""
    if line.startswith('{"'):
        try:
            return json.loads(line)
        except ValueError:
            pass

class NoVerdict(Exception):
    pass

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

def crate_toml(name):
    return f'''[package]
name = "{name}"
version = "0.0.0"
edition = "2024"

[workspace]

[dependencies]
vengine = {{ path = "{ENGINE}" }}
structmeta = {{ path = "{REPO}/structmeta" }}
syn = {{ version = "3.0.0", features = ["full", "extra-traits"] }}
proc-macro2 = {{ version = "1", features = ["span-locations"] }}
quote = "1"

[profile.dev]
debug = 0
opt-level = 0
incremental = false

[profile.dev.package.vengine]
opt-level = 1
'''

class Crate:
    """the generated crate of one property"""
    def __init__(self, prop, seed, shapes):
        self.prop, self.seed, self.shapes = prop, seed, shapes
        self.name = f"gen_{prop.lower()}"
        self.dir = os.path.join(BUILD, self.name)
        self.rejected = {}
    def generate(self):
        shutil.rmtree(os.path.join(self.dir, "src"), ignore_errors=True)
        write(os.path.join(self.dir, "Cargo.toml"), crate_toml(self.name))
        lock = open(os.path.join(ENGINE, "Cargo.lock")).read()
        if not os.path.exists(os.path.join(self.dir, "Cargo.lock")):
            write(os.path.join(self.dir, "Cargo.lock"), lock)
        out = ["#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, non_upper_case_globals, clippy::all)]",
               "extern crate alloc;"]
        out += PRELUDE.strip().split("\n")
        self.ranges = []
        for s in self.shapes:
            a = len(out) + 1
            out.append(f"pub mod {s['id']} {{ use super::pre::*;")
            out += s["body"].rstrip("\n").split("\n")
            out.append(f"pub type Inst = {s['ty']};")
            out.append("}")
            self.ranges.append((a, len(out), s["id"]))
        ents = []
        for s in self.shapes:
            k = "make" if "make" in s["caps"] and "print" in s["caps"] and "parse" in s["caps"] else "print" if "print" in s["caps"] and "parse" in s["caps"] else "parse"
            a = len(out) + 1
            ents.append(f"        vengine::reg::Entry::{k}::<{s['id']}::Inst>(\"{s['id']}\"),")
        out.append("fn main() {")
        out.append("    vengine::run::main(vec![")
        for s, e in zip(self.shapes, ents):
            self.ranges.append((len(out) + 1, len(out) + 1, s["id"]))
            out.append(e)
        out.append("    ], include_str!(\"shapes.json\"));")
        out.append("}")
        write(os.path.join(self.dir, "src/main.rs"), "\n".join(out) + "\n")
        js = json.dumps({"shapes": [{k: v for k, v in s.items() if k not in ("body",)} for s in self.shapes]}, ensure_ascii=False)
        write(os.path.join(self.dir, "src/shapes.json"), js)
    def owner(self, line):
        for a, b, sid in self.ranges:
            if a <= line <= b:
                return sid
    def build(self):
        """compile; returns {shape id: [diagnostic texts]} of declarations that do not compile"""
        t = time.time()
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=self.dir, env=env(), capture_output=True, text=True, timeout=840)
        self.build_s = time.time() - t
        bad, other = {}, []
        for line in p.stdout.splitlines():
            m = message(line)
            if m is None:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if self.name.replace("-", "_") != m["target"]["name"]:
                other.append(m["message"]["rendered"])
                continue
            ids = set()
            for sp in m["message"]["spans"]:
                if sp["file_name"].endswith("main.rs") and sp["is_primary"]:
                    ids.add(self.owner(sp["line_start"]))
                ex = sp.get("expansion")
                while ex:
                    if ex["span"]["file_name"].endswith("main.rs"):
                        ids.add(self.owner(ex["span"]["line_start"]))
                    ex = ex["span"].get("expansion")
            ids.discard(None)
            if not ids and m["message"]["spans"]:
                other.append(m["message"]["rendered"])
            for i in ids:
                bad.setdefault(i, []).append(m["message"]["rendered"])
        if p.returncode == 0:
            return {}
        if not bad:
            raise NoVerdict("the build failed outside the generated declarations:\n" + "\n".join(other)[:3000] + p.stderr[-3000:])
        return bad
    def binary(self):
        return os.path.join(TARGET, "debug", self.name)

def closure(shapes, bad):
    """ids that must go when `bad` goes (declarations that refer to them)"""
    bad = set(bad)
    while True:
        more = {s["id"] for s in shapes if s["id"] not in bad and any(x in bad for x in refs(s))}
        if not more:
            return bad
        bad |= more
def refs(s):
    out = []
    def ty(t):
        if isinstance(t, dict):
            if "ref" in t: out.append(t["ref"])
            else: ty(t["arr"])
    for f in s.get("fields", []): ty(f["ty"])
    for v in s.get("variants", []):
        for f in v: ty(f["ty"])
    if s.get("twin"): out.append(s["twin"])
    if s.get("embed"): out.append(s["embed"]["inner"])
    return out

def run_engine(binary, args, limit_s, out):
    cmd = [binary] + [str(x) for x in args]
    pre = lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (24 << 30, 24 << 30))
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit_s, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"the engine did not finish in {limit_s} s of wall time")
    return p

TIERS = {
    # declarations per round, cases per round, seconds per round, rounds
    "quick": dict(n=150, cases=700000, time=40, rounds=1),
    "thorough": dict(n=120, cases=400000, time=75, rounds=6),
}
# properties that need other numbers
PER = {
    "C11": dict(quick=dict(n=60), thorough=dict(n=60)),
    "C25": dict(quick=dict(n=90)),
}

def settings(prop, tier):
    t = dict(TIERS[tier])
    t.update(PER.get(prop, {}).get(tier, {}))
    return t

def check(prop, seed, tier, replay=None):
    """returns (coverage, findings, assumptions)"""
    st = settings(prop, tier)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], declarations=0, declarations_exercised=0, monitor_counts={}, rounds=0, cases=0, build_seconds=0.0)
    finds = []
    for rnd in range(st["rounds"]):
        sd = seed * 1000 + rnd if rnd else seed
        c, f = round_(prop, sd, tier, st)
        for k in ("evaluations", "distinct_nontrivial", "declarations", "declarations_exercised", "cases", "build_seconds"):
            cov[k] = round(cov[k] + c[k], 2) if isinstance(c[k], float) else cov[k] + c[k]
        cov["rule"] = c["rule"]
        cov["samples"] = (cov["samples"] + c["samples"])[:8]
        for k, v in c["monitor_counts"].items():
            cov["monitor_counts"][k] = cov["monitor_counts"].get(k, 0) + v
        cov["rounds"] += 1
        finds += f
        if finds:
            break
    return cov, finds

def round_(prop, seed, tier, st):
    g = corpus.build(prop, seed, st["n"])
    shapes = g.shapes
    finds = []
    build_s = 0.0
    dropped = []
    for attempt in range(6):
        cr = Crate(prop, seed, shapes)
        cr.generate()
        bad = cr.build()
        build_s += cr.build_s
        if not bad:
            break
        for sid, msgs in bad.items():
            s = g.by_id[sid]
            dropped.append(sid)
            finds.append(dict(kind="an admissible declaration does not compile", declaration=s["decl"], tags=s["tags"], shape=sid, inputs=[], expected="the declaration compiles",
                              actual=msgs[0][:3000], seed=seed, counts=compile_counts(prop, s)))
        gone = closure(shapes, bad)
        shapes = [s for s in shapes if s["id"] not in gone]
        if not shapes:
            break
    else:
        shapes = []
    finds = [f for f in finds if f.pop("counts")]
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], declarations=len(g.shapes), declarations_exercised=0, monitor_counts={}, cases=0, build_seconds=build_s)
    if dropped:
        cov["monitor_counts"]["declarations that do not compile"] = len(dropped)
    if not shapes and prop != "C29":
        if finds:
            return cov, finds
        raise NoVerdict("no declaration compiled")
    out = os.path.join(BUILD, f"{cr.name}.out.json")
    prog = os.path.join(BUILD, f"{cr.name}.progress")
    if os.path.exists(out):
        os.remove(out)
    args = ["--prop", prop, "--seed", seed, "--cases", st["cases"], "--time", st["time"], "--threads", 8, "--out", out, "--progress", prog, "--tier", tier]
    dg = None
    if prop == "C16":
        dg = [os.path.join(BUILD, f"{cr.name}.digest{k}") for k in (0, 1)]
        args += ["--digest", dg[0]]
    p = run_engine(cr.binary(), args, st["time"] * 4 + 240, out)
    if p.returncode == 0:
        r = json.load(open(out))
        cov.update(evaluations=int(r["evaluations"]), distinct_nontrivial=int(r["distinct_nontrivial"]), rule=r["rule"], samples=r["samples"], declarations_exercised=int(r["shapes_exercised"]),
                   cases=int(r["counts"].get("cases", 0)))
        for k, v in r["counts"].items():
            cov["monitor_counts"][k] = cov["monitor_counts"].get(k, 0) + int(v)
        for f in r["findings"]:
            f["seed"] = seed
            finds.append(f)
        if not finds and cov["distinct_nontrivial"] < 50 and prop != "C29":
            raise NoVerdict("too little was observed")
        if prop == "C16":
            q = run_engine(cr.binary(), ["--prop", prop, "--seed", seed, "--cases", st["cases"], "--time", 0, "--threads", 1, "--out", out + "2", "--tier", tier, "--digest", dg[1], "--reverse", "1"], 600, out)
            if q.returncode != 0:
                raise NoVerdict("second process: " + q.stderr[-500:])
            a, b = open(dg[0]).read().split("\n"), open(dg[1]).read().split("\n")
            cov["monitor_counts"]["histories compared between two processes"] = len(a)
            for x, y in zip(a, b):
                if x != y:
                    finds.append(dict(kind="two processes see different outcomes for the same tokens", case=int(x.split()[0]), seed=seed, declaration="", inputs=[], expected=x, actual=y))
                    break
    elif p.returncode == 7:
        r = json.load(open(out))
        case = int(r["hang"])
        if r["blocked"]:
            # no statement about the outcome of a parse holds if there is none
            finds.append(dict(kind="a parse is blocked and never returns", case=case, seed=seed, declaration="", inputs=[], expected="Ok or Err", actual="the thread sleeps and uses no processor time"))
        elif prop != "C15":
            raise NoVerdict(f"case {case} takes too much processor time")
        else:
            finds.append(dict(kind="one parse takes more than 25 s of processor time", case=case, seed=seed, declaration="", inputs=[], expected="Ok or Err in bounded time", actual="still running"))
    elif p.returncode < 0:
        # the process died: find the case
        import struct
        raw = open(prog, "rb").read()
        cands = [x for (x,) in struct.iter_unpack("<Q", raw) if x != 2**64 - 1]
        hit = None
        for c in cands:
            q = run_engine(cr.binary(), ["--prop", prop, "--seed", seed, "--case", c, "--tier", tier], 300, out)
            if q.returncode < 0:
                hit = (c, q)
                break
        if hit and prop == "C15":
            finds.append(dict(kind=f"the parser aborts the process (signal {-hit[1].returncode})", case=hit[0], seed=seed, declaration="", inputs=[], expected="Ok or Err", actual=hit[1].stderr[-500:]))
        else:
            raise NoVerdict(f"the engine died with signal {-p.returncode}; cases {cands[:8]}; {p.stderr[-500:]}")
    else:
        raise NoVerdict(f"engine exit {p.returncode}: {p.stderr[-2000:]}")
    return cov, finds

def compile_counts(prop, s):
    """does a declaration that fails to compile break this property?"""
    if prop == "C11":
        return "spelled" in s["tags"]
    if prop == "C25":
        return "generic" in s["tags"]
    return True

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(do_replay(prop, sys.argv[3]))
    sys.modules["run"] = sys.modules["__main__"]      # one NoVerdict, not two
    try:
        import special
        if prop in special.CHECKS:
            cov, finds = special.CHECKS[prop](seed, tier)
        else:
            cov, finds = check(prop, seed, tier)
    except NoVerdict as e:
        print(f"NO VERDICT property={prop}: {e}", file=sys.stderr)
        sys.exit(2)
    finish(prop, seed, tier, cov, finds, t0)

def known():
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) kind=(.*?) decl=(.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out

def finish(prop, seed, tier, cov, finds, t0):
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(finds),
              assumptions=["syn, quote and proc-macro2 of the lock file behave as documented", "the reference model states the documentation faithfully"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if finds:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", f"{prop}-{seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, findings=finds), f, indent=1, ensure_ascii=False)
        for x in finds[:3]:
            print(f"--- {x['kind']}\n{x.get('declaration', '')[-2500:]}\ninputs: {x.get('inputs')}\nexpected: {x.get('expected')}\nactual: {str(x.get('actual'))[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    print(f"property {prop} held: {cov.get('evaluations')} evaluations, {cov.get('distinct_nontrivial')} distinct non-trivial, {time.time() - t0:.1f} s")
    sys.exit(0)

def do_replay(prop, path):
    d = json.load(open(path))
    import special
    if prop in special.CHECKS:
        cov, finds = special.CHECKS[prop](d["seed"], d["tier"])
        for x in finds[:3]:
            print(json.dumps(x, indent=1, ensure_ascii=False))
        return 1 if finds else 0
    rc = 0
    for f in d["findings"]:
        st = settings(prop, d["tier"])
        g = corpus.build(prop, f["seed"], st["n"])
        cr = Crate(prop, f["seed"], g.shapes)
        cr.generate()
        bad = cr.build()
        if bad:
            for sid, m in bad.items():
                print(g.by_id[sid]["decl"]); print(m[0])
            return 1
        if "case" in f:
            p = run_engine(cr.binary(), ["--prop", prop, "--seed", f["seed"], "--case", int(f["case"]), "--tier", d["tier"]], 300, "")
            print(p.stdout)
            rc = max(rc, 1 if p.returncode else 0)
    return rc

if __name__ == "__main__":
    main()
