"""Checks that watch the compiler: C24, C26 (lints), C27, C28."""
import os, random, re, subprocess, time
import run as R
from probe import *
import illformed, decls, names
from shapes import PRELUDE

def cov0(rule):
    return dict(evaluations=0, distinct_nontrivial=0, rule=rule, samples=[], declarations=0, declarations_exercised=0, monitor_counts={}, rounds=0, cases=0)
def cnt(cov, k, n=1):
    cov["monitor_counts"][k] = cov["monitor_counts"].get(k, 0) + n
def find(kind, decl, expected, actual, seed, **kw):
    return dict(kind=kind, declaration=decl, inputs=[], expected=expected, actual=actual, seed=seed, **kw)
def rend(ms, k=3):
    return "\n".join(m["rendered"] for m in ms[:k])[:3000]

# ---------------------------------------------------------------- C24
# rules only structmeta knows: the derive itself reports them, so that the user reads about the declaration and
# not about the generated code (an error of a derive has no code; those of rustc's type checker have one)
OWN = {"StructMeta/" + k for k in "dup fieldarg filter filter2 headarg item order rest2".split()}
OWN_PT = set("close invalid mismatch parg peek4 peek_after peek_in phead targ thead union".split())
def reported_by_derive(label):
    head, _, k = label.partition("/")
    return label in OWN or head != "StructMeta" and k in OWN_PT
def only_generated(d, ms):
    if d[1] != "ill" or not reported_by_derive(d[2]):
        return False
    return any("unparsable tokens" in m["message"] for m in ms) or not any(m["code"] is None for m in ms)

def c24(seed, tier):
    n, rounds = (700, 4) if tier == "quick" else (2500, 8)
    cov = cov0("declarations compiled and judged by the documented rules; non-trivial: the declaration has a verdict (well-formed or ill-formed)")
    p = Probe("C24")
    finds, seen = [], set()
    for rd in range(rounds):
        decls = illformed.generate(seed * 1000 + rd if rd else seed, n)
        cov["rounds"] += 1
        finds += c24_round(p, decls, cov, seed, seen)
        if finds:
            break
    cov["distinct_nontrivial"] = len(seen)
    cov["evaluations"] = cov["monitor_counts"].get("declarations judged", 0)
    cov["cases"] = p.compiles
    cnt(cov, "compiler runs", p.compiles)
    return cov, finds

def c24_round(p, decls, cov, seed, seen):
    finds = []
    chunks = [decls[i:i + 60] for i in range(0, len(decls), 60)]
    def stage(chunk):
        b = Batch([d[0] for d in chunk])
        rc, ms, _ = p.compile(b.text)
        by, other = b.sort(errors(ms))
        return chunk, rc, by, other
    solo = []     # to be judged on their own: (declaration, reason)
    for chunk, rc, by, other in pmap(stage, chunks):
        for i, d in enumerate(chunk):
            ms = by.get(i, [])
            text, verdict, label = d
            cov["declarations"] += 1
            cnt(cov, "declarations judged" if verdict != "any" else "arbitrary declarations watched for panics")
            if verdict != "any":
                seen.add(hash(text))
            cnt(cov, f"{verdict}: {label}")
            if len(cov["samples"]) < 6 and verdict == "ill" and i % 17 == 3:
                cov["samples"].append(dict(declaration=text, verdict=verdict, errors=[m["message"] for m in ms]))
            if any(panics(m) for m in ms) or (ms and verdict == "ok") or (not ms and verdict == "ill") or only_generated(d, ms):
                solo.append(d)
            elif verdict == "ill":
                cnt(cov, "ill-formed declarations rejected")
                if reported_by_derive(label):
                    cnt(cov, "errors reported by the derive itself")
            elif verdict == "ok":
                cnt(cov, "well-formed declarations without an error of their own")
        if other:
            # an error that points at no declaration: find whose it is
            cnt(cov, "diagnostics outside every declaration")
            solo += [d for d in chunk if d not in solo]
        if not other and not by and rc:
            raise R.NoVerdict("rustc fails without a diagnostic")
    # well-formed ones again without the ill-formed ones, so that they are type-checked completely
    ok = [d for d in decls if d[1] == "ok" and d not in solo]
    for chunk, rc, by, other in pmap(stage, [ok[i:i + 40] for i in range(0, len(ok), 40)]):
        if rc:
            solo += [d for i, d in enumerate(chunk) if other or i in by]
        else:
            cnt(cov, "well-formed declarations compiled", len(chunk))
    def one(d):
        text = d[0]
        lead = "pub struct Before;\n\n\n"
        rc, ms, _ = p.compile(lead + text + "\n\n\npub struct After;\n")
        return d, rc, errors(ms), (4, 3 + len(text.split("\n")))
    for d, rc, ms, (a, b) in pmap(one, solo):
        text, verdict, label = d
        cnt(cov, "declarations compiled alone")
        pan = [m for m in ms if panics(m)]
        if pan:
            finds.append(find("the derive panics", text, "a compile error", rend(pan), seed, label=label))
        elif verdict == "ok" and rc:
            finds.append(find("a well-formed declaration does not compile", text, "the declaration compiles", rend(ms), seed, label=label))
        elif verdict == "ill" and not rc:
            finds.append(find("an ill-formed declaration compiles", text, "a compile error (" + label + ")", "compiles", seed, label=label))
        elif rc and only_generated(d, ms):
            finds.append(find("the derive does not report an ill-formed declaration", text, "an error of the derive (" + label + ")", rend(ms), seed, label=label))
        elif rc:
            out = [m for m in ms if not any(a <= x and y <= b for x, y in own_lines(m)) and m["spans"]]
            out += [m for m in ms if not m["spans"]]
            # a type error may point at other places too; what the derive detects has no error code
            out = [m for m in out if m["code"] is None]
            if out:
                finds.append(find("an error of the derive is not located in the declaration", text, f"an error in lines {a} to {b}", rend(out), seed, label=label))
            else:
                cnt(cov, "errors located in the declaration")
    return finds

# ---------------------------------------------------------------- expansions
HEAD = "#![allow(dead_code, unused)]\nextern crate alloc;\n" + PRELUDE
EXPAND = ["-Zunpretty=expanded"]
NIGHTLY = {"RUSTC_BOOTSTRAP": "1"}

def module(k, body, use="use super::pre::*;"):
    return f"pub mod m{k} {{ {use}\n{body}\n}}\n"

def messages(ms):
    """what the diagnostics of an expansion say, without places"""
    return sorted(m["message"] + "".join("\n  " + c["message"] for c in m["children"]) for m in errors(ms))

# ---------------------------------------------------------------- C27
def c27(seed, tier):
    n, runs, rounds = (200, 24, 1) if tier == "quick" else (330, 60, 4)
    cov = cov0("expansions of a declaration compared with its expansion alone in a process of its own; non-trivial: distinct declarations whose expansion contains generated code")
    p = Probe("C27")
    finds, seen = [], set()
    for rd in range(rounds):
        sd = seed * 1000 + rd if rd else seed
        finds += c27_round(p, sd, n, runs, cov, seen)
        cov["rounds"] += 1
        if finds:
            break
    cov["distinct_nontrivial"] = len(seen)
    cov["evaluations"] = cov["monitor_counts"].get("expansions compared", 0) + cov["monitor_counts"].get("error messages compared", 0)
    cov["cases"] = p.compiles
    cnt(cov, "compiler processes", p.compiles)
    return cov, finds[:10]

def asked_for(p, cov, bodies, errs):
    """the environment variables and files that are asked for while derives of /repo expand, and not otherwise;
    and the preloaded library that sees it"""
    so = os.path.join(p.dir, "envlog.so")
    q = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(R.HERE, "envlog.c"), "-ldl"], capture_output=True, text=True)
    if q.returncode:
        raise R.NoVerdict("envlog.c: " + q.stderr[-500:])
    at = os.path.join(p.dir, "asked")
    os.makedirs(at, exist_ok=True)
    def names(text, k):
        log = os.path.join(p.dir, f"envlog.{k}")
        if os.path.exists(log):
            os.remove(log)
        rc, ms, out = p.compile(text, EXPAND, env=dict(NIGHTLY, LD_PRELOAD=so, VF_ENVLOG=log, CARGO_MANIFEST_DIR=at, CARGO_MANIFEST_PATH=at + "/Cargo.toml", CARGO_TARGET_TMPDIR=at, OUT_DIR=at), cwd=at)
        if rc and not ms:
            raise R.NoVerdict(f"the compiler ends with {rc} under the environment monitor")
        ls = set(open(log, errors="replace").read().split("\n")) - {""} if os.path.exists(log) else set()
        es = {x[1:] for x in ls if x[0] == "E"}
        fs = {os.path.relpath(os.path.join(at, x[1:]), at) for x in ls if x[0] == "F"}
        return es, fs
    base, basef = names(HEAD + "#[derive(Clone, Debug)] pub struct X; fn f() { println!(\"{}\", 1); }", 0)
    if not base or not basef:
        raise R.NoVerdict("the environment monitor saw nothing")
    x, y = names(HEAD + "".join(module(i, b) for i, b in enumerate(bodies)), 1), names("".join(module(i, b, use="") for i, b in enumerate(errs)), 2)
    got, gotf = x[0] | y[0], x[1] | y[1]
    cnt(cov, "environment variables the compiler asks for without derives", len(base))
    cnt(cov, "files the compiler asks for without derives", len(basef))
    extra = sorted(x for x in got - base if not x.startswith(("RUST_", "LD_", "VF_")) and x not in ("PATH", "HOME"))
    files = sorted(x for x in gotf - basef if not x.startswith("..") and x != ".")
    cnt(cov, "environment variables asked for only while derives expand", len(extra))
    cnt(cov, "files asked for only while derives expand", len(files))
    return extra[:40], files[:40], so

def c27_round(p, seed, n, runs, cov, seen):
    r = random.Random(f"C27/{seed}")
    good = [d["decl"] for d in decls.build(seed, n)]
    bad = [t for t, v, l in illformed.generate(seed, 120) if v == "ill"][:40]
    dumped = [x for x in (with_dump(d, r) for d in r.sample(good, min(12, len(good)))) if x]
    cov["declarations"] += len(good) + len(bad)
    def alone(i):
        rc, ms, out = p.compile(HEAD + module(0, good[i]), EXPAND, env=NIGHTLY)
        m = modules(out)
        if 0 not in m:
            raise R.NoVerdict("no expanded source: " + rend(errors(ms)))
        return squeeze(m[0][0])
    ref = pmap(alone, range(len(good)))
    for i, t in enumerate(ref):
        if "automatically_derived" in t:
            seen.add(hash(good[i]))
    # the code generated for a declaration that is rejected is its error
    def reject(i):
        rc, ms, out = p.compile(module(0, bad[i], use=""))
        return messages([m for m in ms if m["code"] is None])
    refbad = pmap(reject, range(len(bad)))
    jobs = []
    for k in range(runs):
        q = random.Random(f"C27/{seed}/{k}")
        what = [("good", i) for i in range(len(good))]
        if k % 3 == 1:
            what = q.sample(what, max(5, len(what) // 2))
        if k % 3 == 2:
            what += q.choices(what, k=30)                       # again in the same process
        noise = k % 2 == 1
        if noise:
            what += [("bad", i) for i in range(len(bad))] + [("dump", i) for i in range(len(dumped))]
        q.shuffle(what)
        if k == 0:
            what.sort()
        if k == 2:
            what.sort(reverse=True)
        jobs.append((k, q, what))
    envs = [{}, dict(CARGO_PKG_NAME="structmeta", CARGO_CRATE_NAME="structmeta", CARGO_MANIFEST_DIR="/repo/structmeta"), dict(CARGO_PKG_NAME="other", CARGO_CRATE_NAME="other", CARGO_MANIFEST_DIR="/", CARGO_PRIMARY_PACKAGE="1"),
            dict(TZ="Asia/Tokyo", LANG="tr_TR.UTF-8", LC_ALL="C", USER="nobody"), dict(RUST_BACKTRACE="1", DEBUG="1", STRUCTMETA_DEBUG="1", DUMP="1", VERBOSE="1", STRUCTMETA_DUMP="1"), dict(OUT_DIR="/tmp", PROFILE="release", OPT_LEVEL="3", TARGET="wasm32-unknown-unknown", NUM_JOBS="1", CI="true", CARGO_CFG_TEST="1", DOCS_RS="1")]
    pkg = "CARGO_PKG_NAME CARGO_PKG_VERSION CARGO_PKG_VERSION_MAJOR CARGO_PKG_VERSION_MINOR CARGO_PKG_VERSION_PATCH CARGO_PKG_VERSION_PRE CARGO_PKG_AUTHORS CARGO_PKG_DESCRIPTION CARGO_PKG_HOMEPAGE CARGO_PKG_REPOSITORY CARGO_PKG_LICENSE CARGO_PKG_RUST_VERSION CARGO_BIN_NAME CARGO_CRATE_NAME CARGO_MANIFEST_DIR CARGO_MANIFEST_PATH CARGO_PRIMARY_PACKAGE CARGO_TARGET_TMPDIR".split()
    asked, files, so = asked_for(p, cov, good[:60] + dumped, bad)
    envs += [{x: v for x in pkg + asked} for v in ("1", "0", "2.0.0", "", "true", "/tmp")]
    # a directory with these files (and the usual ones of a package), another time, another process
    there = os.path.join(p.dir, "there")
    for f in dict.fromkeys(files + ["src/lib.rs", "src/main.rs", "Cargo.toml", "Cargo.lock", "build.rs", "structmeta.toml", ".structmeta", ".git/HEAD", ".env", "rustfmt.toml", "target/structmeta"]):
        try:
            R.write(os.path.join(there, f), "1\n")
        except OSError:
            pass
    place = dict(CARGO_MANIFEST_DIR=there, CARGO_MANIFEST_PATH=there + "/Cargo.toml", CARGO_TARGET_TMPDIR=there, OUT_DIR=there)
    envs += [dict(VF_CWD=there), dict(place, VF_CWD=there), dict(LD_PRELOAD=so, VF_TIME="400000000", VF_PID="7"), dict(LD_PRELOAD=so, VF_TIME="-90061", VF_PID="40000", VF_CWD=there)]
    def run(job):
        k, q, what = job
        parts = [HEAD]
        for j, (kind, i) in enumerate(what):
            body = good[i] if kind == "good" else bad[i] if kind == "bad" else dumped[i]
            use = "use super::pre::*;" if kind != "bad" else ""
            t = module(j, ("\n" * q.choice([0, 0, 1, 7])) + body, use)
            x = q.random()
            if x < 0.15:
                t = f"pub mod deeper{j} {{ pub use super::pre; mod deepest {{ pub use super::pre;\n{t}\n}} }}\n"
            elif x < 0.25:
                t = f"pub mod outer{j} {{ pub use super::pre;\n pub fn around() {{\n{t}\n}} }}\n"
            elif x < 0.3:
                t = f"pub mod outer{j} {{ pub use super::pre;\n #[doc(hidden)]\n{t}\n}}\n"
            parts.append(t)
        name = q.choice(["case", "structmeta_user", "a", "syn2", "zz"])
        args = list(EXPAND) + q.choice([[], ["-O"], ["--test"], ["-Cdebuginfo=2"], ["--cfg", "test"], ["--cap-lints", "allow"], ["-Cmetadata=xyz"]])
        ed = q.choice(["2024", "2024", "2021"])
        cwd = q.choice([None, None, "/"])
        rc, ms, out = p.compile("".join(parts), args, env=dict(NIGHTLY, **envs[k % len(envs)]), name=name, edition=ed, cwd=envs[k % len(envs)].get("VF_CWD", cwd))
        return job, ms, modules(out), f"process {k}: {len(what)} declarations, crate {name}, edition {ed}, {args[1:]}, environment {envs[k % len(envs)]}"
    finds = []
    for (k, q, what), ms, mods, where in pmap(run, jobs):
        missing = 0
        for j, (kind, i) in enumerate(what):
            if kind != "good":
                continue
            for t in mods.get(j, []) or [None]:
                if t is None:
                    missing += 1
                    continue
                cnt(cov, "expansions compared")
                if squeeze(t) != ref[i]:
                    a, b = first_difference(ref[i], squeeze(t))
                    finds.append(find("two expansions of one declaration differ", good[i], "alone: ..." + a, where + ": ..." + b, seed, position=j))
        if missing and any(panics(m) for m in errors(ms)):
            finds.append(find("declarations that expand alone do not expand here", "\n".join(good[i] for kind, i in what if kind == "good")[:3000], "they expand in " + where, rend(errors(ms)), seed))
            continue
        if missing:
            raise R.NoVerdict(f"{missing} modules are missing in the expanded source of {where}: " + rend(errors(ms)))
        if len(cov["samples"]) < 6:
            cov["samples"].append(dict(process=where, order=[f"{a}{b}" for a, b in what[:12]]))
    # rejected declarations, in other orders
    def again(k):
        q = random.Random(f"C27bad/{seed}/{k}")
        order = list(range(len(bad)))
        q.shuffle(order)
        b = Batch([bad[i] for i in order])
        rc, ms, out = p.compile(b.text)
        by, other = b.sort([m for m in errors(ms) if m["code"] is None])
        return order, by, other
    for order, by, other in pmap(again, range(max(6, runs // 4))):
        for j, i in enumerate(order):
            cnt(cov, "error messages compared")
            got = messages(by.get(j, []))
            if got != refbad[i] and not other:
                finds.append(find("a rejected declaration gives another error", bad[i], str(refbad[i]), str(got), seed))
    return finds

def first_difference(a, b, w=160):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 60):i + w], b[max(0, i - 60):i + w]

STRING = re.compile(r'r(#*)".*?"\1|"(?:\\.|[^"\\])*"', re.S)
def without_helpers(t, names=r"(?:struct_meta|parse|to_tokens)\b"):
    """the source text without the attributes of these names"""
    start = re.compile(r"#!?\s*\[\s*(?:cfg_attr\s*\(\s*all\s*\(\s*\)\s*,\s*)?(?:" + names + ")")
    out, i = [], 0
    while i < len(t):
        m = start.match(t, i)
        if m:
            j, depth = t.index("[", i) + 1, 1
            while depth:
                q = STRING.match(t, j)
                if q:
                    j = q.end()
                    continue
                depth += {"[": 1, "]": -1}.get(t[j], 0)
                j += 1
            i = j
            continue
        q = STRING.match(t, i)
        j = q.end() if q else i + 1
        out.append(t[i:j])
        i = j
    return "".join(out)

ATTR = {"StructMeta": "struct_meta", "Parse": "parse", "ToTokens": "to_tokens"}
def derives_of(decl):
    m = re.search(r"#\[derive\(([^)]*)\)\]", decl)
    ds = [x.strip().split("::")[-1] for x in m.group(1).split(",") if x.strip()]
    return m, [x for x in ds if x in ATTR]
def with_dump(decl, r, which=None):
    """the declaration with `dump` for some of its derives"""
    m, ds = derives_of(decl)
    for d in which or [r.choice(ds)]:
        k = r.random()
        a = ATTR[d]
        mm = re.search(r"\n#\[struct_meta\(([^()\n]+)\)\]\n(?=pub struct)", decl) if d == "StructMeta" else None
        if mm and k < 0.6:
            old = mm.group(1).rstrip(", ")
            x = r.choice([f"dump, {mm.group(1)}", f"{old}, dump", f"{old}, dump,"])
            decl = decl[:mm.start(1)] + x + decl[mm.end(1):]
            continue
        t = f"#[{a}(dump)]"
        if k > 0.7: t = f"#[{a}(dump,)]"
        if k > 0.8: t = f"#[{a}(dump)]\n#[{a}(dump)]"
        if k > 0.9: t = f"#[allow(dead_code)] #[{a}(dump)] #[allow(unused)]"
        decl = decl[:m.end()] + "\n" + t + decl[m.end():]
    return decl

# ---------------------------------------------------------------- C28
def bare(body):
    """squeezed item and impls without attributes of the derives"""
    return squeeze(without_helpers(body, r"(?:struct_meta|parse|to_tokens)\b|allow\s*\(\s*(?:dead_code|unused)\s*\)"))

def bounded(r):
    """a generic declaration with bounds of every kind, in every order and place"""
    P, Q = ["::syn::parse::Parse", "syn::parse::Parse"], ["::quote::ToTokens", "quote::ToTokens"]
    der = r.choice([["StructMeta"], ["StructMeta"], ["Parse"], ["ToTokens"], ["Parse", "ToTokens"], ["ToTokens", "StructMeta"]])
    lts = r.choice([[], [], ["'a"], ["'a", "'b"]])
    gens, where, fields = [], [], []
    for i, l in enumerate(lts):
        gens.append(l + (": 'a" if i and r.random() < 0.6 else ""))
        fields.append(f"::vengine::leaf::Lt<{l}, LitInt>")
    for t in r.choice([["T"], ["T"], ["T", "U"], ["Input"]]):
        bs = [r.choice(P) if "ToTokens" not in der or r.random() < 0.5 else r.choice(P + Q)]
        bs += [r.choice(P)] + ([r.choice(Q)] if "ToTokens" in der else [])
        bs += r.sample(["'static", "Clone", "PartialEq<LitInt>", "?Sized", "(Send)", "for<'x> PartialEq<&'x str>", "::std::convert::Into<::std::vec::Vec<u8>>", "Fn(u8, &str) -> u8", "::std::iter::Iterator<Item = (u8,)>"] + lts, r.randint(0, 4))
        bs = list(dict.fromkeys(bs))
        r.shuffle(bs)
        k = r.choice([0, 0, len(bs), r.randint(0, len(bs))])
        here, there = bs[k:], bs[:k]
        there = [b for b in there if b != "?Sized"]
        gens.append(t + (": " + " + ".join(here) if here else "") + r.choice(["", "", " = LitInt"] if not any("T" == g for g in gens[:-1]) and t != "T" else [""]))
        if there:
            where.append(f"{t}: " + " + ".join(there))
        if "?Sized" in bs:
            where.append(f"{t}: Sized")
        fields.append(t)
    w = " where " + ", ".join(where) + r.choice([" ", ", "]) if where else " "
    names = r.sample(["a", "b", "c", "x", "input", "dump", "static_"], len(fields))
    return f"#[derive({', '.join(der)})]\npub struct S<{', '.join(gens)}>{w}{{\n" + "".join(f"    pub {n}: {t},\n" for n, t in zip(names, fields)) + "}"

# names the derive must not see anything in
C28_NAMES = ["Dump", "dump", "MemoryDump", "Dumped", "DUMP", "Core_dump", "DumpAll", "Debug", "DebugInfo", "Test", "Tests", "Trace", "Expand", "Verbose", "Print", "Log", "Output", "Attr", "Args", "Derive", "Macro",
             "StructMeta", "Parse_", "ToTokens_", "Tokens", "Input", "Error_", "_S", "S1", "Größe", "r#type", "Struct", "Enum", "A", "Config", "Internal", "Private", "Hidden", "Foo", "Bar", "Example", "MyStruct", "MyAttr", "Item"]
def c28_decls(seed, n):
    r = random.Random(f"C28/{seed}")
    out = []
    for d in decls.build(seed, n, ["C01", "C07", "C10", "C19", "C20", "C21", "C22", "C25", "C18"]):
        t = d["decl"]
        if "macro_rules" in t or "mod inner" in t or "super::" in t:
            continue
        if d["kind"] == "sm" and r.random() < 0.3 and "<" not in t.split("{")[0].split("S", 1)[1][:2]:
            t = t.replace("#[derive(StructMeta)]", r.choice(["#[derive(StructMeta, ToTokens)]", "#[derive(ToTokens, StructMeta)]", "#[derive(StructMeta, Parse, ToTokens)]"]))
        if r.random() < 0.35:
            t = re.sub(r"(\b(?:struct|enum) )S\b", lambda m: m.group(1) + own, t) if len(re.findall(r"\bS\b", t)) == 1 and (own := r.choice(C28_NAMES)) else t
        out.append(t)
    out += [bounded(r) for _ in range(max(12, n // 8))]
    # the word elsewhere
    out += [
        "#[derive(StructMeta)]\npub struct S {\n    pub dump: bool,\n    pub d: Option<LitInt>,\n}",
        "#[derive(StructMeta)]\npub struct S {\n    #[struct_meta(name = \"dump\")] pub x: LitStr,\n}",
        "#[derive(StructMeta)]\n/// dump\n#[doc = \"#[struct_meta(dump)]\"]\npub struct dump {\n    #[struct_meta(unnamed)] pub dump: LitStr,\n}",
        "#[derive(Parse, ToTokens)]\npub struct dump {\n    #[parse(any)] pub dump: Ident,\n    #[to_tokens(\"(\")] pub p: token::Paren,\n}",
        "#[derive(ToTokens, Parse)]\n#[doc = \"dump\"]\npub enum S {\n    dump { #[parse(peek)] dump: Ident },\n    B(LitInt),\n}",
        "#[derive(Parse)]\npub struct S<dump>(pub dump) where dump: ::syn::parse::Parse;",
        "#[derive(ToTokens)]\n#[to_tokens()]\npub struct S(pub Ident);", "#[derive(Parse, ToTokens)]\n#[parse()]\npub struct S(pub Ident);", "#[derive(StructMeta)]\n#[struct_meta()]\npub struct S(pub Ident);",
        "#[derive(StructMeta, Debug, Clone)]\npub struct S {\n    pub a: bool,\n}", "#[derive(Parse, ToTokens, Clone, PartialEq)]\npub struct S(pub Ident, pub LitInt);", "#[derive(ToTokens)]\npub enum Never {}", "#[derive(ToTokens, Parse)]\npub struct Unit;",
        "#[derive(StructMeta)]\npub struct Unit;",
    ]
    return out

def c28(seed, tier):
    n, rounds = (260, 1) if tier == "quick" else (400, 6)
    cov = cov0("declarations whose dumped code is pasted and expanded next to the normal expansion; non-trivial: pairs (declaration, set of dumped derives)")
    p = Probe("C28")
    finds, seen = [], set()
    for rd in range(rounds):
        sd = seed * 1000 + rd if rd else seed
        finds += c28_round(p, sd, cov, seen, n)
        cov["rounds"] += 1
        if finds:
            break
    cov["distinct_nontrivial"] = len(seen)
    cov["evaluations"] = sum(v for k, v in cov["monitor_counts"].items() if k.startswith("judged"))
    cov["cases"] = p.compiles
    cnt(cov, "compiler processes", p.compiles)
    return cov, finds[:10]

def dump_text(m):
    for c in [m["message"]] + [c["message"] for c in m["children"]]:
        if "macro result" in c:
            return c.split("macro result", 1)[1].split("\n", 1)[1]
    for c in [m["message"]] + [c["message"] for c in m["children"]]:
        k = [i for i in (c.find("#[automatically_derived]"), c.find("impl")) if i >= 0]
        if k and "for" in c:
            return c[min(k):]

def c28_round(p, seed, cov, seen, n):
    r = random.Random(f"C28r/{seed}")
    ds = c28_decls(seed, n)
    cov["declarations"] += len(ds)
    # entries: (declaration, derives, dumped derives, text)
    ents, items = [], []
    for t in ds:
        m, dv = derives_of(t)
        sets = [[], list(dv)]
        if len(dv) > 1:
            sets += [[x] for x in dv]
        items.append(dict(decl=t, derives=dv, ents=[]))
        for st in sets:
            items[-1]["ents"].append(len(ents))
            ents.append(dict(item=len(items) - 1, dumped=st, text=with_dump(t, r, st) if st else t))
    finds = []
    def stage(chunk):
        src, ranges = HEAD, []
        for k, e in enumerate(chunk):
            a = src.count("\n") + 1
            src += module(k, e["text"])
            ranges.append((a, src.count("\n")))
        rc, ms, out = p.compile(src, EXPAND, env=NIGHTLY)
        mods = modules(out)
        lines = src.split("\n")
        for k, e in enumerate(chunk):
            e["body"] = (mods.get(k) or [None])[0]
            e["errors"], e["lines"], e["range"] = [], lines, ranges[k]
        stray = []
        for m in errors(ms):
            ls = own_lines(m)
            hit = [e for e in chunk if ls and e["range"][0] <= ls[0][0] <= e["range"][1]]
            (hit[0]["errors"] if hit else stray).append(m)
        return chunk, rc, stray, ms
    chunks = [ents[i:i + 30] for i in range(0, len(ents), 30)]
    for chunk, rc, stray, ms in pmap(stage, chunks):
        if stray:
            finds.append(find("a diagnostic outside every declaration", "\n".join(e["text"] for e in chunk)[:4000], "errors at the derives", rend(stray), seed))
        if any(e["body"] is None for e in chunk):
            raise R.NoVerdict("no expanded source: " + rend(errors(ms)))
        cnt(cov, "judged: processes with dumped derives fail" if rc else "processes without a failure")
        if not rc and any(e["dumped"] for e in chunk):
            finds.append(find("compilation of a dumped derive goes on", next(e["text"] for e in chunk if e["dumped"]), "failure", "exit code 0", seed))
    paste = []
    for e in ents:
        it = items[e["item"]]
        e["code"] = {}
        if not e["dumped"]:
            cnt(cov, "judged: declarations without dump watched for output")
            if e["errors"]:
                finds.append(find("a declaration without dump gives an error", e["text"], "no error", rend(e["errors"]), seed))
            continue
        cnt(cov, "judged: errors of dumped derives", len(e["errors"]))
        if len(e["errors"]) != len(e["dumped"]):
            finds.append(find("number of errors", e["text"], f"one error for each of {e['dumped']}", rend(e["errors"]) or "none", seed))
            continue
        for m in e["errors"]:
            who = None
            for sp in m["spans"]:
                if sp["is_primary"] and sp["line_start"] == sp["line_end"]:
                    line = e["lines"][sp["line_start"] - 1]
                    at = line[sp["column_start"] - 1:sp["column_end"] - 1]
                    if "derive(" in line and at.split("::")[-1].strip() in ATTR:
                        who = at.split("::")[-1].strip()
            if who not in e["dumped"] or who in e["code"]:
                finds.append(find("the error is not at the derive", e["text"], f"an error at each of {e['dumped']}", rend([m]), seed))
                continue
            code = dump_text(m)
            if code is None:
                finds.append(find("the error does not show code", e["text"], "the generated code", rend([m]), seed))
                continue
            e["code"][who] = code
            paste.append((e, who))
    # the dumped code, expanded
    def expand(chunk):
        src = HEAD + "".join(module(k, e["code"][who]) for k, (e, who) in enumerate(chunk))
        rc, ms, out = p.compile(src, EXPAND, env=NIGHTLY)
        mods = modules(out)
        bad = [m for m in errors(ms) if m["code"] is None and not m["message"].startswith(("cannot find", "unresolved"))]
        if len(chunk) > 1 and (bad or len(mods) != len(chunk)):
            return [x for one in chunk for x in expand([one])]
        return [(e, who, None if bad else (mods.get(k) or [None])[0], bad) for k, (e, who) in enumerate(chunk)]
    use = squeeze("use super::pre::*;")
    for got in pmap(expand, [paste[i:i + 30] for i in range(0, len(paste), 30)]):
        for e, who, body, bad in got:
            if body is None:
                finds.append(find("the dumped code is not complete Rust code", e["text"], "an implementation", e["code"][who][:1500] + "\n" + rend(bad), seed))
                continue
            t = squeeze(body)
            e.setdefault("impl", {})[who] = t[len(use):] if t.startswith(use) else t
    for it in items:
        es = [ents[k] for k in it["ents"]]
        if any(set(e.get("impl", {})) != set(e["dumped"]) for e in es):
            continue                         # reported above
        full = es[1]
        item = bare(full["body"])
        for e in es:
            want = [full["impl"][d] for d in it["derives"] if d not in e["dumped"]]
            got = bare(e["body"])
            cnt(cov, "judged: expansions compared with dumped code")
            if e["dumped"]:
                seen.add(hash((it["decl"], tuple(e["dumped"]))))
            if not parts_match(item, want, got):
                finds.append(find("the code shown by dump is not the code generated without it" if not e["dumped"] else "dump changes what the other derives generate", e["text"], "item and " + " ".join(want)[:1500], got[:3000], seed))
            for d, t in e.get("impl", {}).items():
                if t != full["impl"][d]:
                    a, b = first_difference(full["impl"][d], t)
                    finds.append(find("the dumped code depends on where dump is written", e["text"], a, b, seed))
                elif len(cov["samples"]) < 4 and len(t) < 1200:
                    cov["samples"].append(dict(declaration=e["text"], derive=d, dumped=e["code"][d][:600]))
        # the code itself is an implementation for the type
        for d in it["derives"]:
            if "impl" not in full["impl"][d]:
                finds.append(find("the dumped code is not an implementation", it["decl"], "impl", full["impl"][d], seed))
    # complete compilations
    def whole(e):
        rc, ms, out = p.compile(HEAD + module(0, e["text"]))
        return e, rc, ms
    for e, rc, ms in pmap(whole, [e for e in ents if e["dumped"]][::9]):
        cnt(cov, "judged: complete compilations of dumped declarations")
        if not rc:
            finds.append(find("a declaration with dump compiles", e["text"], "failure", "compiles", seed))
    if p.noise:
        finds.append(find("output besides diagnostics", "", "none", "\n".join(p.noise[:10]), seed))
    return finds

def parts_match(item, want, got):
    """got = item with the wanted implementations, where each derive puts them (builtin derives may stand between)"""
    for w in want:
        i = got.find(w)
        if i < 0:
            return False
        got = got[:i] + got[i + len(w):]
    return got == item

# ---------------------------------------------------------------- C26
def lints():
    o = subprocess.run(["rustc", "-W", "help"], env=R.env(), capture_output=True, text=True).stdout
    ls = [m.group(1) for m in re.finditer(r"(?m)^\s+([a-z0-9-]+)\s+(?:allow|warn)\s", o) if m.group(1) not in ("warnings",)]
    groups = ["warnings"] + [m.group(1) for m in re.finditer(r"(?m)^\s+([a-z0-9-]+)\s{2,}[a-z0-9-]+,", o) if m.group(1) not in ls]
    return ls, [g for g in dict.fromkeys(groups) if g not in ("let-underscore", "rust-2024-compatibility")]
# about the whole crate or the compiler, not about a declaration
GLOBAL = {"unused-crate-dependencies", "unstable-features", "linker-info", "linker-messages", "unknown-lints", "non-ascii-idents", "unused-extern-crates"}
# matters of taste about function bodies, allowed by default, or about the user's own redundant path
TASTE = {"unused-qualifications", "unused-results", "let-underscore-drop", "single-use-lifetimes", "trivial-casts", "trivial-numeric-casts", "tail-expr-drop-order", "if-let-rescope", "impl-trait-redundant-captures",
         "meta-variable-misuse", "unit-bindings", "redundant-lifetimes", "ambiguous-negative-literals", "closure-returning-async-block"}
SKIP = GLOBAL | TASTE
def underived(t):
    return without_helpers(re.sub(r"#\[derive\([^)]*\)\]", "", t))

def place(decl, where):
    """the declaration in a place of the source (same number of lines before it)"""
    if where == "fn":
        return "pub fn around() { use super::pre::*;\n" + decl + "\n}"
    if where == "method":
        return "pub struct Host; impl Host { pub fn around(&self) { use super::pre::*;\n" + decl + "\nlet _ = self; } }"
    if where == "const":
        return "pub const AROUND: () = { use super::pre::*;\n" + decl + "\n};"
    if where == "private":
        return "mod hidden { use super::super::pre::*;\n" + decl + "\n}"
    if where == "twice":
        return "pub mod x { use super::super::pre::*;\n" + decl + "\n}\npub mod y { use super::super::pre::*;\n" + decl + "\n}"
    return "use super::pre::*;\n" + decl

def c26(seed, tier):
    cov, finds = R.check("C26", seed, tier)
    rounds, n = (1, 260) if tier == "quick" else (4, 400)
    p = Probe("C26", crates=("structmeta", "syn", "quote", "proc_macro2", "vengine"))
    for rd in range(rounds):
        if finds:
            break
        finds += c26_round(p, seed * 1000 + rd if rd else seed, n, cov, tier)
    k = sum(v for m, v in cov["monitor_counts"].items() if m.startswith("compiled"))
    cov["evaluations"] += k
    cov["rule"] += "; and declarations compiled in another environment (place, edition, prelude, lint levels) against the same source without the derives"
    cnt(cov, "compiler runs", p.compiles)
    return cov, finds[:10]

# macros of the user's that have the name of one that std, syn or quote provides
MACROS = "".join(f"#[allow(unused_macros)] macro_rules! {m} {{ ($($t:tt)*) => {{ ::std::compile_error!(\"a macro of the user's\") }} }}\n" for m in
    """assert assert_eq assert_ne cfg column compile_error concat dbg debug_assert debug_assert_eq debug_assert_ne env eprint eprintln file format format_args include include_bytes include_str line matches
    module_path option_env panic print println stringify thread_local todo r#try unimplemented unreachable vec write writeln parenthesized braced bracketed Token custom_keyword custom_punctuation parse_quote
    parse_quote_spanned parse_macro_input quote quote_spanned format_ident""".split())

def c26_round(p, seed, n, cov, tier):
    finds = []
    r = random.Random(f"C26l/{seed}")
    ds = [d["decl"] for d in decls.build(seed, n) if "super::" not in d["decl"]]
    cov["declarations"] += len(ds)
    ls, groups = lints()
    warn = [a for l in ls if l not in SKIP for a in ("-W", l)]
    quiet = "#![allow(unknown_lints)]\nextern crate alloc;\n" + PRELUDE
    # ---- warnings: with every lint on, nothing is reported that is not reported without the derives
    clean = {}
    def warned(job):
        ed, where, chunk = job
        res = []
        for f in (lambda t: t, underived):
            b = Batch([place(f(ds[i]), where) for i in chunk], head=quiet)
            rc, ms, out = p.compile(b.text, warn, edition=ed)
            by, other = b.sort([m for m in ms if m["code"]])
            res.append((rc, by, other, [m for m in ms if m["level"] == "error"]))
        return job, res
    idx = list(range(len(ds)))
    jobs = []
    for ed, where, share in [("2024", "mod", 1), ("2021", "mod", 1), ("2018", "mod", 0.4), ("2024", "fn", 0.4), ("2021", "method", 0.3), ("2024", "const", 0.3), ("2024", "private", 0.4), ("2021", "private", 0.3), ("2024", "twice", 0.3)]:
        sub = idx if share == 1 else r.sample(idx, int(len(idx) * share))
        if ed != "2024":
            sub = [i for i in sub if "kw::" not in ds[i] or True]
        jobs += [(ed, where, sub[i:i + 40]) for i in range(0, len(sub), 40)]
    for (ed, where, chunk), ((rc, by, other, er), (rc2, by2, o2, er2)) in pmap(warned, jobs):
        if rc2:
            cnt(cov, "chunks that do not compile without the derives")
        if rc and not rc2:
            bad = [ds[chunk[i]] for i in by if any(m["level"] == "error" for m in by[i])]
            finds.append(find(f"a declaration does not compile (edition {ed}, {where})", (bad or [""])[0], "compiles", rend(er), seed))
            continue
        key = lambda m: (m["code"]["code"], m["message"])
        for k, i in enumerate(chunk):
            base = {key(m) for m in by2.get(k, [])}
            if (ed, where) == ("2024", "mod"):
                clean[i] = {m["code"]["code"] for m in by2.get(k, [])}
            cnt(cov, f"compiled with every lint on: {where}, edition {ed}")
            for m in by.get(k, []):
                if m["code"]["code"] == "dead_code" and where == "private":
                    continue              # what is dead differs when the type can be constructed
                if key(m) not in base:
                    finds.append(find("a derive adds a warning", ds[i], f"no more than without the derive (edition {ed}, {where})", m["rendered"], seed))
        ob = {key(m) for m in o2}
        for m in other:
            if key(m) not in ob and "case.rs" in m["rendered"] and m["code"]["code"].replace("_", "-") not in GLOBAL:
                finds.append(find("a derive adds a warning outside the declaration", "", "none", m["rendered"], seed))
    if finds:
        return finds
    # ---- forbidden lints: what a crate forbids, the derives do not need
    def forbidden(l):
        name = l.replace("-", "_")
        use = [ds[i] for i in idx if i in clean and name not in clean[i]]
        if l in groups:
            use = [ds[i] for i in idx if not clean.get(i, {1}) - {"missing_docs", "missing_debug_implementations", "missing_copy_implementations", "variant_size_differences"}]
        q = random.Random(f"{seed}/{l}")
        use = q.sample(use, min(len(use), 40))
        pre = "#![allow(unknown_lints, unused_imports, dead_code, unused_qualifications)]\n".replace(name + ", ", "").replace(", " + name, "") if l not in groups else ""
        res = []
        for f in (lambda t: t, underived):
            b = Batch([place(f(t), "mod") for t in use], head=pre + "extern crate alloc;\n" + PRELUDE)
            rc, ms, out = p.compile(b.text, ["-F", l])
            by, other = b.sort([m for m in ms if m["level"] in ("error", "warning")])
            res.append((rc, by, ms))
        return l, use, res
    for l, use, ((rc, by, ms), (rc2, by2, ms2)) in pmap(forbidden, [l for l in ls if l not in SKIP] + groups):
        cnt(cov, "compiled with a lint forbidden", len(use))
        cnt(cov, "lints and groups forbidden")
        key = lambda m: (m["code"] or {}).get("code", "") + m["message"]
        for k, xs in by.items():
            base = {key(m) for m in by2.get(k, [])}
            for m in xs:
                if key(m) not in base:
                    finds.append(find(f"a declaration is not accepted where `{l}` is forbidden", use[k], "nothing reported that is not reported without the derives", m["rendered"], seed))
        if rc and not rc2 and not by:
            finds.append(find(f"declarations are not accepted where `{l}` is forbidden", "\n".join(use)[:3000], "compiles", rend(errors(ms)), seed))
    # ---- the names that generated code itself uses, for everything a declaration can name
    got = names.collect(p, f"names{seed}", 70, HEAD, EXPAND, NIGHTLY)
    if len(got) < 20:
        raise R.NoVerdict(f"generated code seems to use the names {sorted(got)} only")
    cnt(cov, "names used by generated code", len(got))
    q = random.Random(f"C26n/{seed}")
    ns = [names.build(sorted(got), q) for _ in range(max(60, n * 2))]
    quiet_names = "#![allow(dead_code, unused_imports, non_camel_case_types, non_upper_case_globals, non_snake_case, nonstandard_style)]\n" + MACROS
    def named(job):
        ed, chunk = job
        res = []
        for f in (lambda t: t, underived):
            b = Batch([f(ns[i][0]) + "\n" + ns[i][1] for i in chunk], head=quiet_names)
            rc, ms, out = p.compile(b.text, edition=ed)
            res.append((rc, errors(ms), *b.sort(errors(ms))))
        return job, res
    jobs = [(q.choice(["2024", "2021"]), list(range(i, min(i + 30, len(ns))))) for i in range(0, len(ns), 30)]
    for (ed, chunk), ((rc, er, by, oth), (rc2, er2, by2, oth2)) in pmap(named, jobs):
        if rc and not by and rc2 and not by2:
            raise R.NoVerdict("names: " + rend(er2))
        if rc and (not by and not rc2 or oth and not oth2):
            by = {k: [] for k in range(len(chunk))}      # errors that point elsewhere: each is judged alone
        # a declaration that is wrong without its derives is of no use; the others are judged alone
        sure = [i for k, i in enumerate(chunk) if k not in by2]
        cnt(cov, "declarations of such names that are wrong by themselves", len(by2))
        if by2 or rc:
            for k, i in enumerate(chunk):
                if i in sure and k in by:
                    rc3, ms3, _ = p.compile(Batch([ns[i][0] + "\n" + ns[i][1]], head=quiet_names).text, edition=ed)
                    rc4, ms4, _ = p.compile(Batch([underived(ns[i][0]) + "\n" + ns[i][1]], head=quiet_names).text, edition=ed)
                    if rc3 and not rc4:
                        finds.append(find("a declaration with names that generated code uses does not compile", ns[i][0] + "\n// with:\n" + ns[i][1], f"compiles (edition {ed})", rend(errors(ms3)), seed))
        cnt(cov, "declarations named like generated code", len(sure) if not rc else len(sure) - len(by))
    if finds:
        return finds
    # ---- nothing in scope at all
    ab = decls.absolute(seed, n // 2)
    def bare_scope(job):
        head, ed, chunk = job
        b = Batch([d["decl"] for d in chunk], head=head)
        rc, ms, out = p.compile(b.text, ["-D", "warnings", "-A", "nonstandard-style", "-A", "uncommon-codepoints", "-A", "mixed-script-confusables", "-A", "confusable-idents"], edition=ed)
        by, other = b.sort(errors(ms))
        return job, rc, ms, by
    jobs = [(h, ed, ab[i:i + 40]) for i in range(0, len(ab), 40) for h, ed in (("#![no_implicit_prelude]", "2024"), ("#![no_implicit_prelude]", "2018"), ("#![forbid(unsafe_code)]\n#![deny(warnings)]", "2021"), ("mod std {} mod core {} mod alloc {} mod syn {} mod structmeta {} mod quote {} mod proc_macro2 {}", "2024"))]
    for (h, ed, chunk), rc, ms, by in pmap(bare_scope, jobs):
        cnt(cov, "compiled with nothing in scope", len(chunk))
        if rc:
            k = next(iter(by), None)
            finds.append(find(f"a declaration with absolute paths does not compile under `{h}`, edition {ed}", chunk[k]["decl"] if k is not None else "", "compiles", rend(by[k] if k is not None else errors(ms)), seed))
    return finds

CHECKS = {"C24": c24, "C26": c26, "C27": c27, "C28": c28}
