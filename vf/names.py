"""Declarations whose names are those that generated code itself uses, taken from expanded source."""
import random, re
import decls
from probe import *

KEYWORDS = set("""as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type union unsafe use where while
abstract become box do final macro override priv try typeof unsized virtual yield gen macro_rules raw safe auto""".split())
# what the derives recognise by its name
KNOWN = {"Option", "Vec", "HashMap", "NameValue", "NameArgs", "Flag", "bool", "String", "MacroDelimiter"}
STR = re.compile(r'b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|//[^\n]*', re.S)

def used(expanded, decl):
    """identifiers of the generated code that the declaration does not contain"""
    k = expanded.find("automatically_derived")
    own = set(re.findall(r"\w+", decl))
    t = STR.sub(" ", expanded[k:] if k >= 0 else "")
    return {x for x in re.findall(r"(?<!['\w])[^\W\d]\w*", t) if x not in own and x not in KEYWORDS and x != "_"}

def collect(p, seed, n, head, opts, env):
    """names used by generated code -> in how many of n declarations"""
    ds = [d["decl"] for d in decls.build(seed, n) if "super::" not in d["decl"] and "mod inner" not in d["decl"]]
    rc, ms, out = p.compile(head + "".join(f"pub mod m{i} {{ use super::pre::*;\n{t}\n}}\n" for i, t in enumerate(ds)), opts, env=env)
    got = {}
    for i, ts in modules(out).items():
        for x in used(ts[0], ds[i]):
            got[x] = got.get(x, 0) + 1
    # numbered names stand for each other
    stems, keep = {}, {}
    for x in sorted(got, key=lambda x: (len(x), x)):
        st = re.sub(r"\d+", "0", x)
        stems[st] = stems.get(st, 0) + 1
        if stems[st] <= 4:
            keep[x] = got[x]
    return keep

def build(names, r):
    """(declaration, items around it): all names are from `names`; no import is needed"""
    pool = list(names)
    r.shuffle(pool)
    taken_t, taken_v, items = set(), set(), []
    def take(ok=lambda x: True):
        for i, x in enumerate(pool):
            if ok(x):
                return pool.pop(i)
        return f"Zz{len(pool)}{r.randint(0, 99999)}"
    LEAF = ["::syn::LitInt", "::syn::Ident", "::syn::LitStr", "::syn::Expr"]
    arg = lambda c: c if c.isupper() and r.random() < 0.7 else f"{{ {c} }}"
    ctors = lambda n: n[0].isupper()      # unit and tuple structs named like a local variable are excepted
    def wrapper(n, kind):
        body = {"record": ("{{ pub v: {0} }}", "{{ v: input_.parse()? }}", "self.v"), "tuple": ("(pub {0});", "(input_.parse()?)", "self.0"),
                "generic": ("{{ pub v: {0} }}", "{{ v: input_.parse()? }}", "self.v")}[kind]
        t = r.choice(LEAF)
        return (f"pub struct {n} {body[0].format(t)} impl ::syn::parse::Parse for {n} {{ fn parse(input_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> {{ ::std::result::Result::Ok(Self {body[1].format()}) }} }}\n"
                f"impl ::quote::ToTokens for {n} {{ fn to_tokens(&self, t: &mut ::proc_macro2::TokenStream) {{ ::quote::ToTokens::to_tokens(&{body[2]}, t) }} }}\n")
    def user_type():
        """a type of the user's"""
        x = r.random()
        n = take(lambda x: x not in KNOWN)
        if x < 0.35:
            items.append(wrapper(n, "record"))
        elif x < 0.5 and ctors(n):
            items.append(wrapper(n, "tuple"))
        elif x < 0.75:
            items.append(f"pub type {n} = {r.choice(LEAF)};\n")
        elif x < 0.85:
            items.append(f"pub mod {n} {{ pub type {n} = ::syn::LitInt; pub mod syn {{}} pub mod std {{}} }}\n")
            return f"{n}::{n}"
        elif x < 0.95:
            c = take(lambda x: x.isupper() or ctors(x))
            items.append(f"pub const {c}: ::std::primitive::usize = 1;\n")
            taken_v.add(c)
            items.append(f"pub type {n}<X, const Q: ::std::primitive::usize> = ::vengine::leaf::Arr<X, Q>;\n")
            return r.choice([f"{n}<::syn::LitInt, {arg(c)}>", f"::vengine::leaf::Arr<::syn::Ident, {arg(c)}>"])
        else:
            items.append(f"pub type {n} = ::syn::Ident;\n")
        return r.choice([n, n, n, f"self::{n}"])
    def keyword():
        n = take(lambda x: x not in KNOWN and x.isascii())
        items.append(f"::syn::custom_keyword!({n});\n")
        return n
    own = take()
    gens, where, tps, lts = [], [], [], []
    if r.random() < 0.35:
        lt = take(lambda x: x not in ("static",)); gens.append("'" + lt); lts.append(lt)
    if r.random() < 0.5:
        tp = take(lambda x: x not in KNOWN); tps.append(tp)
        b = "::syn::parse::Parse + ::quote::ToTokens"
        if r.random() < 0.5: gens.append(f"{tp}: {b}")
        else: gens.append(tp); where.append(f"{tp}: {b}")
    cn = None
    if r.random() < 0.3:
        cn = take(ctors); gens.append(f"const {cn}: ::std::primitive::usize"); taken_v.add(cn)
    def ty():
        c = [user_type, user_type, user_type]
        if tps: c.append(lambda: tps[0])
        if lts: c.append(lambda: f"::vengine::leaf::Lt<'{lts[0]}, {r.choice(tps + ['::syn::LitInt'])}>")
        if cn: c.append(lambda: f"::vengine::leaf::Arr<{r.choice(tps + ['::syn::LitInt'])}, {arg(cn)}>")
        return r.choice(c)()
    must = []                     # every parameter occurs
    if lts: must.append(f"::vengine::leaf::Lt<'{lts[0]}, {r.choice(tps + ['::syn::LitInt'])}>")
    if tps: must.append(tps[0])
    if cn: must.append(f"::vengine::leaf::Arr<::syn::LitInt, {arg(cn)}>")
    g = f"<{', '.join(gens)}>" if gens else ""
    w = f"where {', '.join(where)} " if where else ""
    O, V, NV, NA = "::std::option::Option<%s>", "::std::vec::Vec<%s>", "::structmeta::NameValue<%s>", "::structmeta::NameArgs<%s>"
    field = lambda: take(lambda x: x not in ("_",))
    if r.random() < 0.5:
        fs = []
        if r.random() < 0.5: fs.append(("#[struct_meta(unnamed)] ", field(), ty()))
        if r.random() < 0.4: fs.append(("#[struct_meta(unnamed)] ", field(), O % ty()))
        if r.random() < 0.3: fs.append(("#[struct_meta(unnamed)] ", field(), V % ty()))
        for t in must + [ty() for _ in range(r.randint(0, 4))]:
            fs.append(("", field(), r.choice(["%s", O, NV, NA, O % NV, O % NA, NA % V, NA % O, NV % O, V, O % V, NA % (O % V)]) % t))
        if r.random() < 0.4: fs.append(("", field(), "::structmeta::Flag"))
        if r.random() < 0.4: fs.append(("", field(), "::std::primitive::bool"))
        rest = r.random()
        if rest < 0.5: fs.append(("", field(), "::std::collections::HashMap<::std::string::String, " + (r.choice(["%s", NV, NA, NV % O, NA % V]) % ty()) + ">"))
        d = f"#[derive(::structmeta::StructMeta)]\npub struct {own}{g} {w}{{\n" + "".join(f"    {a}pub {n}: {t},\n" for a, n, t in fs) + "}"
    else:
        def fields(tys, named, peek):
            out, op = [], r.random() < 0.4
            lead = r.randint(1, 3) if peek else 0
            for i in range(lead):
                out.append(("#[parse(peek)] ", keyword()))
            if not peek and r.random() < 0.3:
                out.append(("#[parse(any)] ", r.choice(["::syn::Ident", alias_ident()])))
            if op:
                c, dl = r.choice([("(", "::syn::token::Paren"), ("[", "::syn::token::Bracket"), ("{", "::syn::token::Brace"), ("(", "::syn::MacroDelimiter")])
                out.append((f'#[to_tokens("{c}")] ', dl if r.random() < 0.6 or dl.endswith("Delimiter") else alias(dl)))
            for t in tys:
                out.append(("", t))
            if r.random() < 0.3:
                out.append(("#[parse(terminated)] ", f"::syn::punctuated::Punctuated<{ty()}, ::syn::Token![,]>"))
            return "".join(f"    {a}{'pub ' if named is None else ''}{field() + ': ' if named else ''}{t},\n" for a, t in out)
        def alias(t):
            n = take(lambda x: x not in KNOWN); items.append(f"pub type {n} = {t};\n"); return n
        def alias_ident():
            return alias("::syn::Ident")
        if r.random() < 0.6:
            k = r.randint(1, 4)
            vs = []
            for i in range(k):
                named = r.random() < 0.5
                peek = r.random() < 0.5
                body = fields((must if i == 0 else []) + [ty() for _ in range(r.randint(0, 2))], named, peek)
                vs.append(f"{take(lambda x: x != 'Self')} " + ("{\n" + body + "}" if named else "(\n" + body + ")"))
            d = f"#[derive(::structmeta::Parse, ::structmeta::ToTokens)]\npub enum {own}{g} {w}{{\n" + ",\n".join(vs) + "}"
        else:
            named = r.random() < 0.6
            body = fields(must + [ty() for _ in range(r.randint(1, 3))], named, False)
            if not named and not ctors(own):
                own = take(ctors)
            d = f"#[derive(::structmeta::Parse, ::structmeta::ToTokens)]\npub struct {own}{g} " + (w + "{\n" + body + "}" if named else "(\n" + body + f") {w};")
    # more items of such names around it
    for _ in range(r.randint(0, 8)):
        n = take()
        if n.startswith("Zz"):
            break
        k = r.choice(["mod", "trait", "record", "enum", "fn", "unit", "const", "macro", "alias"])
        if k in ("unit", "const") and not ctors(n):
            k = "fn"
        items.append({"mod": f"pub mod {n} {{}}\n", "trait": f"pub trait {n} {{ fn {n}() {{}} }}\n", "record": f"pub struct {n} {{ pub x: ::std::primitive::u8 }}\n", "enum": f"pub enum {n} {{ Ok, Err, Some, None }}\n",
                      "fn": f"pub fn {n}() {{}}\n", "unit": f"pub struct {n};\n", "const": f"pub const {n}: () = ();\n", "alias": f"pub type {n} = ();\n",
                      "macro": f"#[allow(unused_macros)] macro_rules! {n} {{ ($($t:tt)*) => {{ ::std::compile_error!(\"a macro of the user's\") }} }}\n"}[k])
    return d, "".join(items)
