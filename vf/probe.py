"""Compiles small sources with rustc against the crates of /repo's working tree and reads the diagnostics."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import run as R

class Probe:
    def __init__(self, prop, crates=("structmeta", "syn", "quote", "proc_macro2", "vengine")):
        self.prop = prop
        self.dir = os.path.join(R.BUILD, f"probe_{prop.lower()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        name = f"probe_{prop.lower()}"
        R.write(os.path.join(self.dir, "Cargo.toml"), R.crate_toml(name))
        R.write(os.path.join(self.dir, "Cargo.lock"), open(os.path.join(R.ENGINE, "Cargo.lock")).read())
        R.write(os.path.join(self.dir, "src/main.rs"), "fn main() {}\n")
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=self.dir, env=R.env(), capture_output=True, text=True, timeout=800)
        if p.returncode:
            raise R.NoVerdict("the crates do not build:\n" + p.stderr[-3000:])
        self.extern = {}
        for line in p.stdout.splitlines():
            m = R.message(line)
            if m is not None:
                if m.get("reason") == "compiler-artifact":
                    n = m["target"]["name"].replace("-", "_")
                    if n in crates:
                        f = [x for x in m["filenames"] if x.endswith(".rlib")]
                        if f:
                            self.extern[n] = f[0]
        self.n = 0
        self.work = os.path.join(self.dir, "work")
        os.makedirs(self.work, exist_ok=True)
        self.compiles = 0
        self.noise = []
    def compile(self, text, args=(), env=None, cwd=None, name=None, edition="2024"):
        """(exit code, diagnostics, stdout); what else appears on stderr is kept in self.noise"""
        self.n += 1
        k = self.n
        self.compiles += 1
        d = os.path.join(self.work, f"c{k}")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "case.rs")
        with open(src, "w") as f:
            f.write(text)
        cmd = ["rustc", "--edition", edition, "--crate-type", "lib", "--crate-name", name or "case", "--error-format=json", "-L", "dependency=" + os.path.join(R.TARGET, "debug/deps"), "--out-dir", d]
        if not any(a.startswith("-Zunpretty") for a in args):
            cmd += ["--emit=metadata"]
        for n, f in self.extern.items():
            cmd += ["--extern", f"{n}={f}"]
        cmd += list(args) + [src]
        e = R.env(env)
        try:
            p = subprocess.run(cmd, cwd=cwd or d, env=e, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            shutil.rmtree(d, ignore_errors=True)
            return 124, [dict(level="error", message="rustc does not finish in 300 s", spans=[], children=[], code=None, rendered="timeout")], ""
        ms = []
        for line in p.stderr.splitlines():
            m = R.message(line)
            if m is not None:
                if m.get("$message_type", "diagnostic") == "diagnostic":
                    ms.append(m)
            elif line.strip() and len(self.noise) < 50:
                self.noise.append(line)
            if not line.startswith("{") and "panicked at" in line or "internal compiler error" in line:
                ms.append(dict(level="error", message=line, spans=[], children=[], code=None, rendered=p.stderr[-3000:]))
        shutil.rmtree(d, ignore_errors=True)
        out = p.stdout
        if any(a.startswith("-Zunpretty") for a in args):
            at = out.find("#![feature(prelude_import)]")
            if at > 0:
                # what came before the expanded source
                self.noise += [x for x in out[:at].splitlines() if x.strip()][:50]
                out = out[at:]
        elif out.strip() and not args:
            self.noise += [x for x in out.splitlines() if x.strip()][:50]
        return p.returncode, ms, out

def errors(ms):
    return [m for m in ms if m["level"].startswith("error") and not m["message"].startswith("aborting due to")]

def own_lines(m, file_end="case.rs"):
    """lines of the source a diagnostic points at (its primary spans, and where they were expanded from)"""
    out = []
    for s in m["spans"]:
        if not s["is_primary"]:
            continue
        cands = []
        x = s
        while x:
            if x["file_name"].endswith(file_end):
                cands.append((x["line_start"], x["line_end"]))
            x = (x.get("expansion") or {}).get("span")
        out += cands[:1]
    return out

def panics(m):
    t = m["message"] + " ".join(c["message"] for c in m["children"])
    return "panicked" in t or "internal compiler error" in t

def pmap(f, xs, k=8):
    with ThreadPoolExecutor(k) as ex:
        return list(ex.map(f, xs))

class Batch:
    """several declarations in one source, each in a module of its own"""
    def __init__(self, decls, head="", pre=""):
        self.decls = decls
        lines = head.split("\n") if head else []
        self.ranges = []
        for i, d in enumerate(decls):
            lines.append(f"pub mod m{i} {{ {pre}")
            a = len(lines) + 1
            lines += d.rstrip("\n").split("\n")
            self.ranges.append((a, len(lines)))
            lines.append("}")
        self.text = "\n".join(lines) + "\n"
    def owner(self, line):
        for i, (a, b) in enumerate(self.ranges):
            if a <= line <= b:
                return i
    def sort(self, ms):
        """({index: [diagnostics]}, [diagnostics that point at no declaration])"""
        by, other = {}, []
        for m in ms:
            ids = {self.owner(a) for a, b in own_lines(m)} - {None}
            if ids:
                for i in ids:
                    by.setdefault(i, []).append(m)
            else:
                other.append(m)
        return by, other

def squeeze(t):
    """text without spacing; rustc lays out the same tokens differently at different depths"""
    t = t.replace("r#gen", "gen")      # a keyword in edition 2024 only
    return re.sub(r",([)\]}>|])", r"\1", re.sub(r"\s+", "", t))

def modules(out):
    """{module number: text} of an expanded source, in the order of appearance (a list per number)"""
    res, cur, close, k = {}, None, None, None
    for line in out.split("\n"):
        if cur is None:
            m = re.match(r"( *)(?:pub )?mod m(\d+) \{$", line)
            if m:
                k, close, cur = int(m.group(2)), m.group(1) + "}", []
            elif re.match(r" *(?:pub )?mod m\d+ \{\}$", line):
                res.setdefault(int(re.search(r"m(\d+)", line).group(1)), []).append("")
        elif line == close:
            res.setdefault(k, []).append("\n".join(cur))
            cur = None
        else:
            cur.append(line)
    return res
