"""Generates declarations (Rust text) with machine-readable descriptions.

A shape: dict(id, kind, tags, decl, body, ty, fields/variants, twin, embed, caps)
  decl  - text of the declaration, shown in reports
  body  - complete module contents
  ty    - type to instantiate inside the module ("S" or an instance of a generic type)
"""
import random, re

KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro
override priv typeof unsized virtual yield try gen""".split())
NORAW = {"self", "Self", "super", "crate", "_"}

def field_ident(name):
    """Rust spelling of a field called `name`, or None if it cannot be one"""
    if name in NORAW:
        return None
    return "r#" + name if name in KEYWORDS else name

PLAIN = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "abc", "xyz", "name", "value", "item", "foo", "bar"]
HOSTILE = ["a", "ab", "abc", "abcd", "b", "ba", "x1", "x_1", "x__1", "_x", "__", "A", "Ab", "aB", "größe", "名前", "Ñ", "type", "if", "fn",
           "async", "match", "dyn", "true", "self", "Self", "crate", "super", "input", "span", "index", "fork", "content", "is_next",
           "named_used", "unnamed_index", "value", "_value_0", "_value_1", "tokens", "name", "this", "r", "std", "syn", "structmeta",
           "Option", "Vec", "Some", "None", "Ok", "Err", "is_snake_case", "parse", "union", "auto", "default", "e", "E0", "l1", "ll", "lll",
           "verylongparametername_with_many_parts_0123456789", "veryLong", "tokens_1", "gen", "try", "await"]
SIMILAR = ["color", "colour", "colo", "colors", "clor", "size", "sizes", "siz", "isze", "rename", "renamed", "name", "nmae", "names", "skip", "skp",
           "ship", "default", "defautl", "with", "width", "withs", "x", "y", "xy", "yx", "xyz", "größe", "grösse", "grössen", "a", "aa", "aaa", "abab", "baba",
           "tag", "tags", "gat", "if", "fi", "größen", "名前", "名", "前名"]

NAMED_LEAVES = ["LitInt"] * 6 + ["LitStr"] * 3 + ["Expr"] * 3 + ["Ident"] * 2 + ["Type", "Path", "Lit", "LitBool", "Pair", "Lifetime", "Box<Expr>",
               "LitFloat", "LitChar", "Box<LitInt>"]
RARE_LEAVES = ["CommaPair", "Visibility", "TokenStream", "Punct", "TokenTree", "Group", "Literal", "Leaky", "Multi", "Stmtish", "Nothing", "Meta", "Meta", "Member", "Block", "Macro", "LitByteStr",
               "LitCStr", "LitByte", "BinOp"]
POS_LEAVES = ["Expr"] * 4 + ["Ident"] * 3 + ["LitInt"] * 4 + ["Type"] * 2 + ["Path"] * 2 + ["LitStr", "Lit", "Pair", "Lifetime", "LitBool", "Box<Expr>"]

FORMS = ["Bool", "Flag", "Value", "List", "NV", "NVOpt", "NA", "NAOpt", "NAList", "NAOptList"]
REST_FORMS = FORMS[2:]

RTY = {"decoy::HashMap<LitInt>": "decoy::HashMap<std::string::String, LitInt>"}

SPELL = {
    "Option": ["Option", "option::Option", "std::option::Option", "core::option::Option", "::std::option::Option", "::core::option::Option"],
    "Vec": ["Vec", "vec::Vec", "std::vec::Vec", "::std::vec::Vec", "alloc::vec::Vec", "::alloc::vec::Vec"],
    "HashMap": ["HashMap", "collections::HashMap", "std::collections::HashMap", "::std::collections::HashMap", "hash_map::HashMap",
                "collections::hash_map::HashMap", "::std::collections::hash_map::HashMap"],
    "String": ["String", "string::String", "std::string::String", "::std::string::String", "alloc::string::String", "::alloc::string::String"],
    "bool": ["bool", "primitive::bool", "std::primitive::bool", "core::primitive::bool", "::std::primitive::bool"],
    "Flag": ["Flag", "structmeta::Flag", "::structmeta::Flag"],
    "NameValue": ["NameValue", "structmeta::NameValue", "::structmeta::NameValue"],
    "NameArgs": ["NameArgs", "structmeta::NameArgs", "::structmeta::NameArgs"],
    "MacroDelimiter": ["MacroDelimiter", "syn::MacroDelimiter", "::syn::MacroDelimiter"],
}

def abs_ty(t):
    """absolute spelling of a leaf type"""
    if t.startswith("Token!["):
        return "::syn::" + t
    if t.startswith("kw::"):
        return "::vengine::leaf::" + t
    for w in ("Option", "Box"):
        if t.startswith(w + "<"):
            return {"Option": "::std::option::Option", "Box": "::std::boxed::Box"}[w] + "<" + abs_ty(t[len(w) + 1:-1]) + ">"
    if t in ("Pair", "CommaPair", "Leaky", "Multi", "Stmtish"):
        return "::vengine::leaf::" + t
    if t in ("TokenStream", "TokenTree", "Punct", "Group", "Literal"):
        return "::proc_macro2::" + t
    return "::syn::" + ("parse::" if t == "Nothing" else "") + t

def hosted(decl, obs, host):
    """host: dict(name, items): the declaration is put among `items`, in a module of its own, under another name"""
    if not host:
        return decl, f"{decl}\n{obs}\n"
    import re
    nm = host["name"]
    if nm in ("input", "tokens") and re.search(r"\bstruct S[^{]*\(|\bstruct S\s*;", decl):
        # no function parameter can have the name of a tuple or unit struct
        nm = host["name"] = "S"
    decl = re.sub(r"\b(struct|enum) S\b", lambda m: f"{m.group(1)} {nm}", decl, count=1)
    decl = re.sub(r"#\[derive\(([^)]*)\)\]", lambda m: "#[derive(" + ", ".join("::structmeta::" + x.strip() for x in m.group(1).split(",")) + ")]", decl, count=1)
    if host.get("wrap") == "tt":
        decl = "macro_rules! around { ($($t:tt)*) => { $($t)* } }\naround! {\n" + decl + "\n}"
    elif host.get("wrap") == "def":
        decl = "macro_rules! define { ($n:ident) => {\n" + re.sub(r"\b(struct|enum) " + re.escape(nm) + r"(?=\W)", lambda m: m.group(1) + " $n", decl, count=1) + f"\n}} }}\ndefine!({nm});"
    full = f"pub mod inner {{\n{host['items']}\n{decl}\n}}"
    return full, f"{full}\nuse self::inner::{nm} as S;\n{obs}\n"

def str_lit(r, s):
    """a string literal of this value"""
    x = r.random()
    if x < 0.88 or not s:
        return '"' + s + '"'
    if x < 0.92:
        return 'r"' + s + '"'
    if x < 0.96:
        return 'r#"' + s + '"#'
    return '"' + "".join("\\u{%x}" % ord(c) if r.random() < 0.6 else c for c in s) + '"'

def helper_attr(r, name, args):
    """the helper attribute(s) `name` with these arguments, in this order"""
    x = r.random()
    if len(args) > 1 and x < 0.25:
        k = r.randint(1, len(args) - 1)
        return helper_attr(r, name, args[:k]) + " " + helper_attr(r, name, args[k:])
    a = f"{name}({', '.join(args)}{r.choice(['', '', '', ','])})"
    x = r.random()
    if x < 0.03:
        return f"#[cfg_attr(all(), {a})]"
    if x < 0.06:
        return f"#[doc = \"#[{name}()]\"] #[{a}]"
    if x < 0.08:
        return f"#[{name}()] #[{a}]"
    if x < 0.11:
        return f"#[{a}] #[{name}()]"
    if x < 0.12:
        return f"#[{name}()] #[{a}] #[doc(hidden)] #[{name}()]"
    return f"#[{a}]"

def fragments(r, t, frs):
    """type t with some part of it (the whole, or arguments of the recognised generics in it) passed in as macro fragments"""
    def new(x):
        frs.append(x)
        return f"$t{len(frs) - 1}"
    def args(x):
        out, depth, cur = [], 0, ""
        for c, prev in zip(x, " " + x):
            if c in "<([{" : depth += 1
            if c in ")]}" or c == ">" and prev not in "-=": depth -= 1
            if c == "," and depth == 0:
                out.append(cur); cur = ""
            else:
                cur += c
        return out + [cur] if cur.strip() else out
    def go(x, whole):
        head, lt, tail = x.partition("<")
        known = lt and tail.rstrip().endswith(">") and re.split(r"\W+", head.strip())[-1] in ("Option", "Vec", "HashMap", "NameValue", "NameArgs")
        if not known or r.random() < whole:
            return new(x.strip())
        inner = args(tail.rstrip()[:-1])
        k = r.randrange(len(inner))
        return head + "<" + ", ".join(go(a, 0.5) if i == k or r.random() < 0.4 else a for i, a in enumerate(inner)) + ">"
    return go(t, 0.45)
def frag_macro(r, frs, decl):
    """a macro_rules definition around decl, invoked with the fragments"""
    kinds = ["path" if re.fullmatch(r"[\w:]+(<[\w:<>, ]*>)?", t) and "dyn" not in t and r.random() < 0.15 else "ty" for t in frs]
    ms = ", ".join(f"$t{i}:{k}" for i, k in enumerate(kinds))
    out = f"macro_rules! m {{ ({ms}) => {{\n{decl}\n}} }}\n"
    if frs and r.random() < 0.25:
        # passed on by another macro
        out += f"macro_rules! m2 {{ ({ms}) => {{ m!{{ {', '.join(f'$t{i}' for i in range(len(frs)))} }} }} }}\n"
        return out + f"m2!({', '.join(frs)});"
    return out + f"m!({', '.join(frs)});"
class Speller:
    """spells the recognised types; mode: plain | mix | path | frag"""
    def __init__(self, rng, mode="plain"):
        self.rng, self.mode = rng, mode
    def __call__(self, name):
        if self.mode == "plain":
            return name
        if self.mode == "mix" and self.rng.random() < 0.7:
            return name
        if self.mode == "abs":
            return self.rng.choice([x for x in SPELL[name] if x.startswith("::")])
        return self.rng.choice(SPELL[name])

class Gen:
    def __init__(self, seed, prefix="s"):
        self.rng = random.Random(seed)
        self.n = 0
        self.prefix = prefix
        self.shapes = []
        self.by_id = {}
    def new_id(self):
        self.n += 1
        return f"{self.prefix}{self.n}"
    def add(self, s):
        self.shapes.append(s)
        self.by_id[s["id"]] = s
        return s
    # ---------------------------------------------------------------- types
    absolute = False
    def ty_text(self, ty):
        if isinstance(ty, str):
            return abs_ty(ty) if self.absolute else RTY.get(ty, ty)
        if self.absolute and "arr" in ty:
            return f"::vengine::leaf::Arr<{self.ty_text(ty['arr'])}, {ty['n']}>"
        if "ref" in ty:
            return f"super::{ty['ref']}::{self.by_id[ty['ref']]['ty']}"
        if "arr" in ty:
            return f"Arr<{self.ty_text(ty['arr'])}, {ty['n']}>"
    def sm_type(self, f, sp):
        t = f.get("tytext") or self.ty_text(f["ty"]) if f["form"] not in ("Bool", "Flag") else ""
        form = f["form"]
        core = {
            "Bool": lambda: sp("bool"), "Flag": lambda: sp("Flag"), "Value": lambda: t,
            "List": lambda: f"{sp('Vec')}<{t}>", "NV": lambda: f"{sp('NameValue')}<{t}>",
            "NVOpt": lambda: f"{sp('NameValue')}<{sp('Option')}<{t}>>", "NA": lambda: f"{sp('NameArgs')}<{t}>",
            "NAOpt": lambda: f"{sp('NameArgs')}<{sp('Option')}<{t}>>", "NAList": lambda: f"{sp('NameArgs')}<{sp('Vec')}<{t}>>",
            "NAOptList": lambda: f"{sp('NameArgs')}<{sp('Option')}<{sp('Vec')}<{t}>>>",
        }[form]()
        if f["wrap"] == "Opt":
            return f"{sp('Option')}<{core}>"
        if f["wrap"] == "Rest":
            return f"{sp('HashMap')}<{sp('String')}, {core}>"
        return core
    # ---------------------------------------------------------------- StructMeta
    def sm_fields(self, prof):
        """list of field dicts: name (addressed by), ident (own identifier), form, wrap, ty, unnamed"""
        r = self.rng
        fields = []
        names = list(dict.fromkeys(prof.get("names", PLAIN)))
        r.shuffle(names)
        refs = prof.get("refs", [])
        def leaf(pool):
            x = r.random()
            if refs and x < prof.get("ref_p", 0.25):
                return {"ref": r.choice(refs)["id"]}
            if x > 1 - prof.get("rare_p", 0.04):
                return r.choice(RARE_LEAVES)
            if r.random() < prof.get("arr_p", 0):
                return {"arr": r.choice(["LitInt", "Ident", "LitStr"]), "n": r.randint(1, 2)}
            if x > 0.9:
                return {"arr": r.choice(["LitInt", "Ident", "LitStr"]), "n": r.randint(1, 3)} if r.random() < 0.3 else r.choice(pool)
            return r.choice(pool)
        lo, hi = prof.get("req", (0, 2))
        nreq = r.choices(range(lo, hi + 1), weights=[prof.get("decay", 0.5) ** i for i in range(hi - lo + 1)])[0]
        lo, hi = prof.get("opt", (0, 2))
        nopt = r.choices(range(lo, hi + 1), weights=[prof.get("decay", 0.5) ** i for i in range(hi - lo + 1)])[0]
        var = r.random() < prof.get("var_p", 0.25)
        nl = prof.get("named", (0, 5))
        nnamed = r.randint(*nl)
        if r.random() < prof.get("big_p", 0.06):
            nnamed = r.randint(8, 24)
            nopt = r.randint(0, 4)
        pos = [("Value", "Req")] * nreq + [("Value", "Opt")] * nopt + ([("List", "Req")] if var else [])
        rest = r.random() < prof.get("rest_p", 0.25)
        named = []
        for i in range(nnamed):
            if not names:
                break
            nm = names.pop()
            forms = prof.get("forms", FORMS)
            form = r.choice(forms)
            wrap = "Req"
            if form not in ("Bool", "Flag") and r.random() < prof.get("named_opt_p", 0.5):
                wrap = "Opt"
            named.append(dict(name=nm, form=form, wrap=wrap, ty=leaf(prof.get("named_leaves", NAMED_LEAVES))))
        if rest:
            named.append(dict(name=None, form=r.choice(prof.get("rest_forms", REST_FORMS)), wrap="Rest", ty=leaf(prof.get("named_leaves", NAMED_LEAVES))))
        r.shuffle(named)
        poss = [dict(name=None, form=f, wrap=w, ty=leaf(prof.get("pos_leaves", POS_LEAVES))) for f, w in pos]
        # interleave, keeping the order of positionals
        slots = [0] * len(poss) + [1] * len(named)
        r.shuffle(slots)
        pi = ni = 0
        for s in slots:
            if s == 0:
                fields.append(poss[pi]); pi += 1
            else:
                fields.append(named[ni]); ni += 1
        return fields
    def emit_sm(self, fields, filter=False, style=None, tags=(), sp=None, twin=None, name_mode="mix", extra_attr=None, frag=False, sid=None,
                generics=None, ident_of=None, host=None):
        """generics: dict(params, where, args, obs_params, field_ty: {index: text})"""
        r = self.rng
        sp = sp or Speller(r, "plain")
        if not fields:
            style = style or r.choice(["unit", "named", "tuple"])
        else:
            style = style or r.choices(["named", "tuple"], weights=[85, 15])[0]
        used = {f["name"] for f in fields if f["name"]}
        lines, accs, frs = [], [], []
        taken = set()
        for i, f in enumerate(fields):
            t = (generics or {}).get("field_ty", {}).get(i) or self.sm_type(f, sp)
            if frag:
                t = fragments(r, t, frs)
            attrs = []
            own = None
            if style == "named":
                if f["name"] is not None:
                    own = field_ident(f["name"])
                    override = own is None or own in taken or (name_mode == "mix" and r.random() < 0.2)
                    if override:
                        # identifier different from the name (may even be the name of nothing else)
                        cand = [x for x in PLAIN + ["renamed", "other"] if field_ident(x) not in taken and x not in used]
                        own = r.choice(cand) if cand else f"fld{i}"
                        used.add(own)
                        attrs.append("name = " + str_lit(r, f["name"]))
                else:
                    cand = [x for x in ["rest", "args", "others", "first", "second", "p0", "p1", "pos"] if x not in taken]
                    own = r.choice(cand) if cand and r.random() < 0.7 else f"fld{i}"
                    while own in taken:
                        own += "_"
                    if f["wrap"] != "Rest":
                        attrs.append("unnamed")
                if ident_of and i in ident_of:
                    own = ident_of[i]
                taken.add(own)
            else:
                if f["name"] is not None:
                    attrs.append("name = " + str_lit(r, f["name"]))
            a = helper_attr(r, "struct_meta", attrs) + " " if attrs else ""
            if a and r.random() < 0.1:
                a = "/// doc\n    " + a
            lines.append(f"    {a}pub {own}: {t}," if style == "named" else f"    {a}pub {t},")
            accs.append(f"self.{own}" if style == "named" else f"self.{i}")
        sattr = []
        if filter:
            sattr.append("name_filter = " + str_lit(r, "snake_case"))
        hd = helper_attr(r, "struct_meta", sattr) + "\n" if sattr else ""
        g = generics or {}
        params = g.get("params", "")
        where = g.get("where", "")
        if style == "named":
            body = f"pub struct S{params} {where}{{\n" + "\n".join(lines) + "\n}"
        elif style == "tuple":
            body = f"pub struct S{params}(\n" + "\n".join(lines) + f"\n) {where};"
        else:
            body = "pub struct S;" 
        decl = "#[derive(StructMeta)]\n" + hd + body
        pre = ""
        if frag:
            decl = frag_macro(r, frs, decl)
        obs = f"impl{g.get('obs_params', '')} Obs for S{g.get('obs_args', '')} {{ fn obs(&self) -> Node {{ Node::Struct(vec![{', '.join(a + '.obs()' for a in accs)}]) }} }}"
        ty = "S" + g.get("args", "")
        sid = sid or self.new_id()
        decl, body = hosted(decl, obs + "\n" + g.get("pre", ""), host)
        s = dict(id=sid, kind="sm", filter=filter, tags=list(tags), decl=decl, ty=ty, twin=twin, style=style,
                 body=body,
                 fields=[dict(name=f["name"], form=f["form"], wrap=f["wrap"], ty=f["ty"]) for f in fields], caps=["parse"])
        if any(isinstance(f["ty"], dict) and "ref" in f["ty"] for f in fields):
            s["tags"].append("nested")
        return self.add(s)
    def sm_random(self, prof, tags=()):
        r = self.rng
        fields = self.sm_fields(prof)
        return self.emit_sm(fields, filter=r.random() < prof.get("filter_p", 0.15), tags=tags, sp=Speller(r, prof.get("spell", "mix")),
                            style=prof.get("style"))

    # ---------------------------------------------------------------- Parse / ToTokens
    def pt_fields(self, prof, depth=0, budget=None):
        """a list of field dicts with delims symbols"""
        r = self.rng
        out = []
        state = {"pending": ""}
        def leaf():
            refs = prof.get("refs", [])
            if refs and r.random() < prof.get("ref_p", 0.2):
                return {"ref": r.choice(refs)["id"]}
            if r.random() < 0.05:
                return {"arr": r.choice(["LitInt", "Ident"]), "n": r.randint(1, 3)}
            return r.choice(prof.get("leaves", PT_LEAVES))
        def put(f):
            f["delims"] = state["pending"] + f["delims"]
            state["pending"] = ""
            out.append(f)
        def seq(n, depth):
            """n items of one scope; True if the scope is known to be exhausted"""
            i = 0
            while i < n and len(out) < 14:
                last = i == n - 1
                x = r.random()
                if depth < prof.get("max_depth", 4) and x < prof.get("delim_p", 0.0):
                    c = r.choice("([{")
                    macro = r.random() < prof.get("macro_p", 0.25)
                    cl = {"(": ")", "[": "]", "{": "}"}[c]
                    if r.random() < 0.08:
                        put(dict(ty=None, delims=c + cl, macro=macro, any=False, term=None, peek=False, group=True))
                    else:
                        put(dict(ty=None, delims=c, macro=macro, any=False, term=None, peek=False, group=True))
                        seq(r.choice([0, 1, 1, 2, 2, 3]), depth + 1)
                        state["pending"] += cl
                elif x < prof.get("delim_p", 0.0) + prof.get("term_p", 0.0) and (last or r.random() < 0.1):
                    anyf = r.random() < 0.4
                    put(dict(ty="Ident" if anyf else leaf(), delims="", macro=False, any=anyf, term=r.choice(["Token![,]", "Token![,]", "Token![;]", "Token![+]", "Token![|]"]), peek=False))
                elif r.random() < prof.get("any_p", 0.0):
                    put(dict(ty="Ident", delims="", macro=False, any=True, term=None, peek=False))
                else:
                    put(dict(ty=leaf(), delims="", macro=False, any=False, term=None, peek=False))
                i += 1
        seq(r.choices(range(0, 7), weights=prof.get("nw", [1, 3, 5, 5, 3, 2, 1]))[0], depth)
        return out
    def pt_field_type(self, f, sp):
        if f.get("group"):
            c = [x for x in f["delims"] if x in "([{"][-1]
            if f["macro"]:
                return sp("MacroDelimiter")
            return ("::syn::" if self.absolute else "") + {"(": "token::Paren", "[": "token::Bracket", "{": "token::Brace"}[c]
        t = f.get("tytext") or self.ty_text(f["ty"])
        if f["term"]:
            if self.absolute:
                return f"::syn::punctuated::Punctuated<{t}, {abs_ty(f['term'])}>"
            return f"Punctuated<{t}, {f['term']}>"
        return t
    def pt_make(self, f):
        if f.get("group"):
            c = [x for x in f["delims"] if x in "([{"][-1]
            return "g.macro_delim()" if f["macro"] else {"(": "g.paren()", "[": "g.bracket()", "{": "g.brace()"}[c]
        def mk(ty):
            if isinstance(ty, str):
                return f'g.val("{ty}")'
            if "ref" in ty:
                return f"<{self.ty_text(ty)} as vengine::reg::Make>::make(g)"
            return f"Arr(vec![{', '.join(mk(ty['arr']) for _ in range(ty['n']))}])"
        if f["term"]:
            if f["any"]:
                return f'g.punct_any("{f["term"]}")'
            if isinstance(f["ty"], str):
                return f'g.punct("{f["ty"]}", "{f["term"]}")'
            return f'g.punct_with(|g| {mk(f["ty"])}, "{f["term"]}")'
        if f["any"]:
            return "g.any_ident()"
        return mk(f["ty"])
    def printable(self, ty):
        if isinstance(ty, str):
            return not ty.startswith("decoy::")
        if "ref" in ty:
            return "print" in self.by_id[ty["ref"]]["caps"]
        return self.printable(ty["arr"])
    def emit_pt(self, variants, is_enum, tags=(), sp=None, twin=None, frag=False, generics=None, sid=None, styles=None, fnames=None, vnames=None, derives=("Parse", "ToTokens"), host=None):
        r = self.rng
        sp = sp or Speller(r, "plain")
        g = generics or {}
        params, where = g.get("params", ""), g.get("where", "")
        frs = []
        printable = all(f.get("group") or self.printable(f["ty"]) for v in variants for f in v) and "ToTokens" in derives
        parts, obs_arms, make_arms = [], [], []
        vn = list(vnames or ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P"])
        for vi, v in enumerate(variants):
            style = (styles[vi] if styles else None) or (r.choices(["named", "tuple"], weights=[55, 45])[0] if v else r.choice(["unit", "named", "tuple"]))
            lines, names, mks = [], [], []
            pool = list(fnames or (PLAIN + ["type", "input", "fork", "tokens", "match", "value", "content", "größe", "_x", "x1", "self_", "this"]))
            pool = [x for x in dict.fromkeys(pool) if field_ident(x)]
            r.shuffle(pool)
            for i, f in enumerate(v):
                t = g.get("field_ty", {}).get((vi, i)) or self.pt_field_type(f, sp)
                if frag:
                    frs.append(t)
                    t = f"$t{len(frs) - 1}"
                attrs = []
                if f["delims"]:
                    d, pieces = f["delims"], []
                    while d:
                        k = r.randint(1, len(d)) if r.random() < 0.5 else len(d)
                        pieces.append(str_lit(r, d[:k]))
                        d = d[k:]
                    attrs.append(helper_attr(r, "to_tokens", pieces))
                ps = [k for k in ("any", "peek") if f[k]] + (["terminated"] if f["term"] else [])
                r.shuffle(ps)
                if ps:
                    attrs.append(helper_attr(r, "parse", ps))
                if r.random() < 0.5:
                    attrs.reverse()
                a = "".join(x + " " for x in attrs)
                if style == "named":
                    nm = field_ident(pool.pop()) if pool else f"fld{i}"
                    names.append(nm)
                    lines.append(f"{a}{'' if is_enum else 'pub '}{nm}: {t}")
                else:
                    names.append(str(i))
                    lines.append(f"{a}{'' if is_enum else 'pub '}{t}")
                mks.append(g.get("field_make", {}).get((vi, i)) or self.pt_make(f))
            vname = vn[vi] if vi < len(vn) else f"V{vi}"
            if style == "named":
                parts.append((vname, " {\n        " + ",\n        ".join(lines) + ("," if lines else "") + "\n    }", style))
            elif style == "tuple":
                parts.append((vname, "(\n        " + ",\n        ".join(lines) + ("," if lines else "") + "\n    )", style))
            else:
                parts.append((vname, "", style))
            path = f"S::{vname}" if is_enum else "S"
            if is_enum:
                if style == "named":
                    pat = f"{path} {{ " + "".join(f"{n}: f{i}, " for i, n in enumerate(names)) + "}"
                elif style == "tuple":
                    pat = f"{path}(" + "".join(f"f{i}, " for i in range(len(names))) + ")"
                else:
                    pat = path
                obs_arms.append(f"{pat} => Node::Var({vi}, vec![{', '.join(f'f{i}.obs()' for i in range(len(names)))}]),")
            else:
                obs_arms.append(", ".join(f"self.{n}.obs()" for n in names))
            if style == "named":
                mk = f"{path} {{ " + "".join(f"{n}: {m}, " for n, m in zip(names, mks)) + "}"
            elif style == "tuple":
                mk = f"{path}(" + "".join(m + ", " for m in mks) + ")"
            else:
                mk = path
            make_arms.append(mk)
        der = ["Parse"] if "Parse" in derives else []
        if printable:
            der.append("ToTokens")
        hd = f"#[derive({', '.join(der)})]\n"
        if is_enum:
            body = f"pub enum S{params} {where} {{\n" + "".join(f"    {n}{b},\n" for n, b, _ in parts) + "}"
        else:
            n, b, st = parts[0]
            body = f"pub struct S{params}" + (f" {where} {b}" if st == "named" else f"{b} {where};")
        decl = hd + body
        if frag:
            decl = frag_macro(r, frs, decl)
        oi = f"impl{g.get('obs_params', '')} Obs for S{g.get('obs_args', '')}"
        if is_enum:
            m = "match self { " + " ".join(obs_arms) + " }" if variants else "match *self {}"
            obs = f"{oi} {{ fn obs(&self) -> Node {{ {m} }} }}"
        else:
            obs = f"{oi} {{ fn obs(&self) -> Node {{ Node::Struct(vec![{obs_arms[0]}]) }} }}"
        caps = (["parse"] if "Parse" in derives else []) + (["print"] if printable else [])
        if variants and printable and "nomake" not in g:
            caps.append("make")
            mi = f"impl vengine::reg::Make for S{g.get('args', '')}"
            if is_enum:
                arms = " ".join(f"{i} => {m}," for i, m in enumerate(make_arms[:-1])) + f" _ => {make_arms[-1]}"
                mk = f"match g.variant({len(make_arms)}) {{ {arms} }}"
            else:
                mk = make_arms[0]
            obs += f"\n{mi} {{ fn make(g: &mut Mk) -> Self {{ let _ = &g; {mk} }} }}"
        sid = sid or self.new_id()
        tags = list(tags)
        allf = [f for v in variants for f in v]
        tags.append("enum" if is_enum else "struct")
        if any(f["delims"] for f in allf): tags.append("delim")
        if any(f["macro"] for f in allf): tags.append("macro")
        if any(f["any"] for f in allf): tags.append("any")
        if any(f["term"] for f in allf): tags.append("term")
        if any(f["peek"] for f in allf): tags.append("peek")
        if any(isinstance(f["ty"], dict) and "ref" in f["ty"] for f in allf): tags.append("nested")
        decl, body = hosted(decl, obs + "\n" + g.get("pre", ""), host)
        s = dict(id=sid, kind="pt", enum=is_enum, tags=tags, decl=decl, body=body, ty="S" + g.get("args", ""), twin=twin, caps=caps,
                 variants=[[dict(ty=f["ty"] if f["ty"] is not None else "Paren", delims=f["delims"], macro=f["macro"], any=f["any"], term=f["term"], peek=f["peek"]) for f in v] for v in variants])
        return self.add(s)
    def pt_variants(self, prof):
        r = self.rng
        n = r.choices([1, 2, 3, 4, 5, 6, 8, 12], weights=prof.get("vw", [1, 4, 5, 4, 3, 2, 1, 1]))[0]
        vs = []
        for _ in range(n):
            if vs and r.random() < prof.get("share_p", 0.5):
                base = r.choice(vs)
                if r.random() < 0.2:
                    v = self.pt_sibling(base)
                elif not any(f["delims"] for f in base) or r.random() < 0.5:
                    if any(f["delims"] for f in base):
                        v = [dict(f) for f in base]       # same structure, other leaves
                        for f in v:
                            if not f.get("group") and not f["term"] and not f["any"] and r.random() < 0.4:
                                f["ty"] = r.choice(prof.get("leaves", PT_LEAVES))
                    else:
                        k = r.randint(0, len(base))
                        v = [dict(f) for f in base[:k]] + self.pt_fields(dict(prof, delim_p=0, nw=[2, 4, 3, 1, 0, 0, 0]))
                    for f in v: f["peek"] = False
                else:
                    v = self.pt_fields(prof)
            else:
                v = self.pt_fields(prof)
            vs.append(v)
        for v in vs:
            if r.random() < prof.get("peek_p", 0.0):
                self.add_peek(v, r.choices([1, 2, 3], weights=[5, 3, 2])[0])
        return vs
    def pt_sibling(self, base):
        """a variant of the same field types whose attributes are others"""
        r = self.rng
        v = [dict(f, peek=False) for f in base]
        for f in v:
            if f["ty"] == "Ident" and not f.get("group"):
                f["any"] = not f["any"] if r.random() < 0.7 else f["any"]
        opens = [i for i, f in enumerate(v) if any(c in "([{" for c in f["delims"])]
        if len(opens) == 1 and len(v[opens[0]]["delims"]) == 1:
            i = opens[0]
            j = r.randint(i + 1, len(v))
            for k, f in enumerate(v):
                if k > i:
                    f["delims"] = ""
            if j < len(v):
                v[j]["delims"] = {"(": ")", "[": "]", "{": "}"}[v[i]["delims"]]
        return v
    def add_peek(self, v, k):
        """mark up to k leading fields (at the outer level) as peeked"""
        r = self.rng
        depth = 0
        done = 0
        for f in v:
            opened = False
            root = depth == 0
            for c in f["delims"]:
                if c in "([{":
                    depth += 1
                    opened = True
                else:
                    depth -= 1
                    if depth == 0 and not opened:
                        root = True
            if not root:
                continue
            if f.get("group"):
                if f["macro"]:
                    return
            else:
                if f["term"]:
                    return
                if f["any"] or (isinstance(f["ty"], str) and f["ty"] in PEEKABLE):
                    pass
                else:
                    f["ty"] = r.choice(PEEKABLE)
                    if r.random() < 0.15:
                        f["ty"], f["any"] = "Ident", True
            f["peek"] = True
            done += 1
            if done == k:
                return
    def pt_random(self, prof, tags=()):
        r = self.rng
        if r.random() < prof.get("enum_p", 0.4):
            vs = self.pt_variants(prof)
            return self.emit_pt(vs, True, tags=tags, sp=Speller(r, "mix"))
        return self.emit_pt([self.pt_fields(prof)], False, tags=tags, sp=Speller(r, "mix"))

PT_LEAVES = ["LitInt"] * 5 + ["LitStr"] * 3 + ["Ident"] * 4 + ["Lit", "Token![=]", "Token![,]", "Token![;]", "Token![:]", "Token![->]", "Token![=>]", "Token![+]",
             "Token![::]", "Token![fn]", "Token![struct]", "Token![self]", "Token![!]", "Token![?]", "Lifetime", "Type", "Expr", "Path", "kw::alpha", "kw::beta", "kw::gamma",
             "Option<Token![,]>", "Option<Token![mut]>", "Option<LitInt>", "Box<LitInt>", "Pair", "LitBool", "Visibility", "Token![-]", "Token![..]", "Token![&]", "LitChar", "Punct", "Punct", "TokenTree", "Group", "Literal", "TokenStream",
             "Leaky", "Leaky", "Multi", "Stmtish", "Stmtish", "Nothing", "Meta", "Member", "Block", "Macro", "LitByteStr", "LitByte", "BinOp"]
PEEKABLE = ["LitInt", "LitInt", "LitStr", "Ident", "Ident", "Lit", "Lifetime", "LitBool", "Token![=]", "Token![,]", "Token![;]", "Token![:]", "Token![->]", "Token![=>]",
            "Token![::]", "Token![fn]", "Token![struct]", "Token![self]", "Token![mut]", "kw::alpha", "kw::beta", "kw::gamma", "Token![!]", "Token![-]", "Token![+]", "Token![..]"]

PRELUDE = """
pub mod pre {
    pub use structmeta::{Flag, NameArgs, NameValue, Parse, StructMeta, ToTokens};
    pub use syn::{BinOp, Block, Expr, Ident, Lifetime, Lit, LitBool, LitByte, LitByteStr, LitCStr, LitChar, LitFloat, LitInt, LitStr, Macro, MacroDelimiter, Member, Meta, Path, Token, Type, Visibility, parse::Nothing, token};
    pub use syn::punctuated::Punctuated;
    pub use proc_macro2::{Group, Literal, Punct, TokenStream, TokenTree};
    pub use std::collections::{HashMap, hash_map};
    pub use std::{collections, option, primitive, string, vec};
    pub use vengine::leaf::{Arr, CommaPair, Has, K, Kn, Leaky, Lt, Multi, Pair, Ph, St, Stmtish, decoy, kw};
    pub use vengine::node::{Node, Obs};
    pub use vengine::reg::Mk;
}
"""
