"""Declarations for the checks that read expanded source: taken from the corpora of the behavioural checks."""
import random, re
import corpus, shapes
from shapes import Gen

SOURCES = ["C01", "C07", "C10", "C19", "C20", "C21", "C22", "C25", "C11", "C18", "C26"]

def build(seed, n, sources=SOURCES):
    """n declarations: dicts (decl, kind, src)"""
    r = random.Random(f"decls/{seed}")
    out, seen = [], set()
    per = max(4, n // len(sources))
    for src in sources:
        g = corpus.build(src, f"d{seed}", max(6, per // 2))
        ss = list(g.shapes)
        r.shuffle(ss)
        k = 0
        for s in ss:
            if s["decl"] in seen or k >= per or "assumed" in s["tags"]:
                continue
            seen.add(s["decl"])
            k += 1
            out.append(dict(decl=s["decl"], kind=s["kind"], src=src, tags=s["tags"], id=s["id"]))
    for s in special(r):
        out.append(dict(decl=s, kind="fixed", src="fixed", tags=[], id=""))
    r.shuffle(out)
    return out

def special(r):
    """many names (hash order would show), same-named declarations with different contents"""
    out = []
    names = [x for x in shapes.PLAIN + shapes.SIMILAR if x.isidentifier() and shapes.field_ident(x) == x]
    names = list(dict.fromkeys(names))
    for k in range(4):
        r.shuffle(names)
        fs = ",\n".join(f"    {n}: {r.choice(['Option<LitInt>', 'bool', 'Flag', 'NameArgs<LitInt>', 'Option<Vec<LitInt>>', 'NameValue<Option<LitInt>>'])}" for n in names[:r.randint(12, 30)])
        out.append(f"#[derive(StructMeta)]\npub struct Same {{\n{fs}\n}}")
    for k in range(3):
        r.shuffle(names)
        vs = ",\n".join(f"    {n.capitalize()} {{ {n}: LitInt, #[to_tokens(\"(\")] p: token::Paren, q: Ident }}" for n in names[:r.randint(8, 16)])
        out.append(f"#[derive(Parse, ToTokens)]\npub enum Same {{\n{vs}\n}}")
    return out

def absolute(seed, n):
    """declarations that need nothing in scope (every path absolute, derives included)"""
    g = Gen(f"abs/{seed}")
    r = g.rng
    g.absolute = True
    leaves = [x for x in dict.fromkeys(shapes.PT_LEAVES) if not x.startswith("decoy")]
    out = []
    for _ in range(n):
        sp = shapes.Speller(r, "abs")
        if r.random() < 0.5:
            s = g.emit_sm(g.sm_fields(dict(names=shapes.HOSTILE if r.random() < 0.5 else shapes.PLAIN, named=(0, 6), rest_p=0.4, rare_p=0.02)), filter=r.random() < 0.15, sp=sp)
        else:
            prof = dict(leaves=leaves, delim_p=0.25, macro_p=0.3, term_p=0.12, any_p=0.12, peek_p=0.3)
            s = g.emit_pt(g.pt_variants(prof), True, sp=sp) if r.random() < 0.5 else g.emit_pt([g.pt_fields(prof)], False, sp=sp)
        d = re.sub(r"#\[derive\(([^)]*)\)\]", lambda m: "#[derive(" + ", ".join("::structmeta::" + x.strip() for x in m.group(1).split(",") if x.strip()) + ")]", s["decl"], count=1)
        d = d.replace("::alloc::", "::std::")
        out.append(dict(decl=d, kind=s["kind"], src="abs", tags=s["tags"], id=s["id"]))
    return out
