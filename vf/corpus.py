"""The declarations each property is observed on."""
import random
from shapes import *

VAL = ["LitInt"] * 5 + ["LitStr"] * 2 + ["Expr", "Ident", "Pair"]

def sm_helpers(g, deep=True):
    """small derived types used as values; tagged helper: not checked on their own"""
    h = []
    h.append(g.emit_sm([dict(name="a", form="Value", wrap="Opt", ty="LitInt"), dict(name="b", form="Bool", wrap="Req", ty="LitInt")], tags=["helper"], style="named", name_mode="own"))
    h.append(g.emit_sm([dict(name=None, form="Value", wrap="Req", ty="LitInt"), dict(name="x", form="Flag", wrap="Req", ty="LitInt")], tags=["helper"], style="named", name_mode="own"))
    h.append(g.emit_sm([dict(name=None, form="List", wrap="Req", ty="LitStr")], tags=["helper"], style="tuple"))
    h.append(g.emit_sm([dict(name="c", form="NA", wrap="Opt", ty={"ref": h[0]["id"]}), dict(name=None, form="NV", wrap="Rest", ty="LitInt")], tags=["helper"], style="named", name_mode="own"))
    return h

def pt_field(ty=None, delims="", macro=False, any=False, term=None, peek=False):
    d = dict(ty=ty, delims=delims, macro=macro, any=any, term=term, peek=peek)
    if any_in(delims):
        d["group"] = True
    return d
def any_in(delims):
    return any(c in "([{" for c in delims)

def pt_helpers(g):
    h = []
    h.append(g.emit_pt([[pt_field("Ident"), pt_field("Token![:]"), pt_field("LitInt")]], False, tags=["helper"]))
    h.append(g.emit_pt([[pt_field("LitInt")], [pt_field("LitStr"), pt_field("LitInt")], [pt_field(delims="("), pt_field("Ident")]], True, tags=["helper"]))
    h.append(g.emit_pt([[pt_field(delims="["), pt_field("LitInt", term="Token![,]")]], False, tags=["helper"]))
    h.append(g.emit_pt([[pt_field("Token![fn]", peek=True), pt_field("LitInt")], [pt_field("Ident", peek=True)], [pt_field("LitStr")]], True, tags=["helper"]))
    return h

def systematic_sm(g, r, names=PLAIN, filter_p=0.0, tags=(), leaf=None):
    """every named form and wrap, every rest form, every kind of positional part, spread over a few structs"""
    out = []
    combos = [(f, w) for f in FORMS for w in ("Req", "Opt") if not (f in ("Bool", "Flag") and w == "Opt")]
    pos = [[], [("Value", "Req")], [("Value", "Opt")], [("List", "Req")], [("Value", "Req"), ("Value", "Opt")], [("Value", "Opt"), ("Value", "Opt"), ("List", "Req")],
           [("Value", "Req"), ("Value", "Req"), ("List", "Req")]]
    rest = [None] + REST_FORMS
    r.shuffle(combos); r.shuffle(pos); r.shuffle(rest)
    n = max(len(combos), len(pos), len(rest))
    for i in range(n):
        nm = list(names); r.shuffle(nm)
        fs = [dict(name=None, form=f, wrap=w, ty=leaf or r.choice(VAL)) for f, w in pos[i % len(pos)]]
        f, w = combos[i % len(combos)]
        named = [dict(name=nm.pop(), form=f, wrap=w, ty=leaf or r.choice(VAL))]
        if r.random() < 0.7:
            f, w = r.choice(combos)
            named.append(dict(name=nm.pop(), form=f, wrap=w, ty=leaf or r.choice(VAL)))
        x = rest[i % len(rest)]
        if x:
            named.append(dict(name=None, form=x, wrap="Rest", ty=leaf or r.choice(VAL)))
        r.shuffle(named)
        for k, x in enumerate(named):
            fs.insert(r.randint(0, len(fs)), x)
        # keep the order of positionals
        p = [x for x in fs if x["name"] is None and x["wrap"] != "Rest"]
        order = {id(x): k for k, x in enumerate([y for y in p if y["form"] != "List" and y["wrap"] == "Req"] + [y for y in p if y["wrap"] == "Opt"] + [y for y in p if y["form"] == "List"])}
        p.sort(key=lambda x: order[id(x)])
        it = iter(p)
        fs = [next(it) if (x["name"] is None and x["wrap"] != "Rest") else x for x in fs]
        out.append(g.emit_sm(fs, filter=r.random() < filter_p, tags=tags, sp=Speller(r, "mix")))
    return out

def huge_sm(g, r):
    """more parameters than fit a mask or a small counter"""
    for n, flags in ((r.randint(66, 90), 0.5), (r.randint(130, 150), 0.9), (r.randint(258, 280), 1.0)):
        fs = []
        stem = r.choice(["p", "flag", "x_", "n"])
        for i in range(n):
            if r.random() < flags:
                f, w, t = r.choice(["Flag", "Flag", "Bool"]), "Req", "LitInt"
            else:
                f, w, t = r.choice(FORMS[2:]), "Opt", r.choice(["LitInt", "LitStr", "Ident"])
                if f in ("Bool", "Flag"):
                    w = "Req"
            fs.append(dict(name=f"{stem}{i}", form=f, wrap=w, ty=t))
        x = r.randint(0, 3)
        if x == 1:
            fs.append(dict(name=None, form="List", wrap="Req", ty="LitInt"))
        elif x == 2:
            fs.append(dict(name=None, form=r.choice(REST_FORMS), wrap="Rest", ty="LitInt"))
        g.emit_sm(fs, tags=["huge"], style="named", name_mode="own")
    # many positional fields
    fs = [dict(name=None, form="Value", wrap="Req" if i < 3 else "Opt", ty=r.choice(["LitInt", "LitStr", "Lit"])) for i in range(r.randint(66, 80))]
    fs.append(dict(name=None, form="List", wrap="Req", ty="LitInt"))
    g.emit_sm(fs, tags=["huge"], style=r.choice(["named", "tuple"]), name_mode="own")

def build(prop, seed, n):
    """n: size of the corpus (about the number of declarations)"""
    g = Gen(f"{prop}/{seed}")
    r = g.rng
    def sm(k, tags=(), **prof):
        for _ in range(k):
            g.sm_random(prof, tags=tags)
    def pt(k, tags=(), **prof):
        out = []
        for _ in range(k):
            out.append(g.pt_random(prof, tags=tags))
        return out
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C12", "C13"):
        h = sm_helpers(g) + pt_helpers(g)
        systematic_sm(g, r)
        prof = dict(refs=h, ref_p=0.12)
        if prop == "C05":
            prof.update(opt=(0, 4), req=(0, 3), var_p=0.5, named=(0, 3), decay=0.8)
        if prop == "C08":
            prof.update(rest_p=1.0, var_p=0.15, named=(0, 4))
        if prop == "C12":
            prof.update(forms=["Flag", "Flag", "NV", "NVOpt", "NA", "NAOpt", "NAList", "NAOptList", "Value", "Bool"], rest_p=0.35, rest_forms=["NV", "NVOpt", "NA", "NAOpt", "NAList", "NAOptList"])
        if prop == "C04":
            prof.update(named=(1, 7))
        sm(n, **prof)
        sm(n // 4, **dict(prof, opt=(0, 0), var_p=0))
        sm(n // 6, **dict(prof, names=HOSTILE))
        huge_sm(g, r)
        if prop == "C08":
            sm(n // 3, **dict(prof, named=(1, 4), rest_forms=["Value", "NV", "NVOpt", "NAOpt", "NAOptList"], forms=["Bool", "Flag", "List", "NA", "NVOpt", "NAOpt", "Value"]))
    elif prop == "C07":
        h = pt_helpers(g)
        systematic_sm(g, r, leaf="LitInt", filter_p=0.3)
        pl = ["Expr"] * 4 + ["Ident", "Type", "Path", "Expr"]
        prof = dict(pos_leaves=pl, named_leaves=["LitInt", "Expr", "LitStr", "LitInt"], filter_p=0.35, rare_p=0, rest_p=0.3, named=(0, 3), var_p=0.5, opt=(0, 2), req=(0, 1))
        sm(n, **prof)
        # one style at a time: what is read as a name depends on the styles declared
        for forms in (["Bool"], ["Flag"], ["Value"], ["NV"], ["NVOpt"], ["List"], ["NA"], ["NAOpt"]):
            sm(max(1, n // 20), **dict(prof, forms=forms, rest_p=0, named=(1, 2), opt=(1, 2)))
        for rf in REST_FORMS:
            sm(max(1, n // 30), **dict(prof, named=(0, 0), rest_p=1, rest_forms=[rf], opt=(1, 2)))
        sm(max(2, n // 10), tags=["reqident"], **dict(prof, req=(1, 2), opt=(0, 0), var_p=0.0))
        sm(max(2, n // 10), **dict(prof, named=(0, 0), rest_p=0, opt=(1, 2)))
    elif prop == "C10":
        prof = dict(names=HOSTILE, named_leaves=["LitInt"], pos_leaves=["LitInt"], rare_p=0, named=(1, 6), opt=(0, 1), var_p=0.15, rest_p=0.2)
        sm(n, **prof)
        sm(n // 2, **dict(prof, names=SIMILAR, rest_p=0.1))
        sm(n // 4, **dict(prof, names=SIMILAR, opt=(1, 1)))
    elif prop == "C14":
        prof = dict(names=SIMILAR, named_leaves=["LitInt"], pos_leaves=["LitInt"], rare_p=0, named=(1, 6), rest_p=0, req=(0, 1), opt=(0, 1), var_p=0.1, big_p=0.15, named_opt_p=0.9)
        sm(n, **prof)
        sm(n // 2, **dict(prof, opt=(0, 0), var_p=0))
        sm(n // 3, **dict(prof, names=HOSTILE, opt=(0, 0)))
    elif prop == "C11":
        spelled(g, r, n)
    elif prop in ("C15", "C16"):
        h = sm_helpers(g) + pt_helpers(g)
        huge_sm(g, r)
        systematic_sm(g, r, filter_p=0.2)
        sm(n // 2, refs=h, names=HOSTILE + PLAIN, filter_p=0.2)
        sm(n // 8, refs=h, names=SIMILAR)
        pt(n // 3, refs=h, delim_p=0.2, term_p=0.15, any_p=0.1, peek_p=0.3)
        pt(n // 5, delim_p=0.3, macro_p=0.5)
        recursive(g, r)
        stream_fixed(g, r)
        if prop == "C16":
            sm(n // 5, refs=h, arr_p=0.5)
    elif prop == "C17":
        h = pt_helpers(g) + sm_helpers(g)[:1]
        pt(n, enum_p=0, refs=h, ref_p=0.1)
        pt(n // 4, enum_p=0, refs=h, nw=[1, 1, 2, 3, 4, 5, 6])
        long_pt(g, r, max(14, n // 5))
        pt(n // 5, enum_p=0, delim_p=0.2, term_p=0.1, any_p=0.1)
        pt(n // 4, enum_p=0, refs=pt_helpers(g), leaves=["Option<Token![,]>", "Option<LitInt>", "LitInt", "Ident", "Token![,]", "Visibility", "Token![+]"])
    elif prop == "C18":
        h = pt_helpers(g)
        over = ["LitInt", "Ident", "Lit", "LitStr", "Expr", "Path", "Token![+]", "Token![,]", "kw::alpha", "Type", "Option<LitInt>", "Pair"]
        pt(n, enum_p=1, leaves=over, share_p=0.8)
        pt(n // 2, enum_p=1, refs=h, ref_p=0.25, share_p=0.5)
        pt(n // 3, enum_p=1, leaves=over, delim_p=0.15, any_p=0.1, share_p=0.7)
        pt(n // 5, enum_p=1, leaves=over, nw=[4, 4, 2, 1, 0, 0, 0], share_p=0.6)
        long_enum(g, r, 14)
        recursive(g, r)
        stream_fixed(g, r)
    elif prop == "C19":
        small = ["LitInt", "Ident", "LitStr", "Token![=]", "Token![,]", "kw::alpha", "kw::beta", "Token![fn]", "Token![->]", "Token![self]"]
        pt(n, enum_p=1, leaves=small, peek_p=0.6, any_p=0.12, share_p=0.6)
        pt(n // 2, enum_p=1, leaves=small, peek_p=0.7, delim_p=0.25, any_p=0.1, share_p=0.5)
        pt(n // 3, enum_p=1, peek_p=1.0, delim_p=0.1, vw=[0, 3, 4, 4, 2, 1, 1, 0])
        peek_fixed(g, r)
        long_enum(g, r, 14, peek=0.6)
    elif prop == "C20":
        pt(n, enum_p=0.25, delim_p=0.4, macro_p=0.25)
        pt(n // 2, enum_p=0.2, delim_p=0.55, macro_p=0.3, max_depth=5, leaves=["LitInt", "Ident"])
        pt(n // 5, enum_p=0.3, delim_p=0.4, term_p=0.2, any_p=0.1, peek_p=0.3)
        delim_fixed(g, r)
        recursive(g, r)
        deep_pt(g, r)
        long_pt(g, r, 16)
    elif prop == "C21":
        pt(n, enum_p=0.25, term_p=0.4, any_p=0.3, delim_p=0.2)
        pt(n // 2, enum_p=0.2, term_p=0.5, any_p=0.4, delim_p=0.0, leaves=["LitInt", "Ident", "LitStr", "Pair", "Expr"])
        pt(n // 4, enum_p=0.2, any_p=0.5, delim_p=0.1, peek_p=0.2)
        term_fixed(g, r)
    elif prop in ("C22", "C23"):
        h = pt_helpers(g)
        pt(n, enum_p=0.35, delim_p=0.35, macro_p=0.3, term_p=0.1, any_p=0.1, peek_p=0.15, refs=h, ref_p=0.1)
        pt(n // 2, enum_p=0.2, delim_p=0.5, macro_p=0.3, max_depth=5, leaves=["LitInt", "Ident", "Token![->]", "Token![=]"])
        pt(n // 4, enum_p=0.7, delim_p=0.1)
        delim_fixed(g, r)
        term_fixed(g, r)
        recursive(g, r)
        stream_fixed(g, r)
        deep_pt(g, r)
        long_pt(g, r, 15)
        long_enum(g, r, 13)
    elif prop == "C25":
        generic(g, r, n)
    elif prop == "C26":
        hostile(g, r, n)
    elif prop == "C30":
        embed(g, r, n)
    elif prop == "C29":
        pass
    else:
        raise SystemExit(f"no corpus for {prop}")
    return g

TYPE_NAMES = """syn structmeta quote proc_macro2 proc_macro std core alloc helpers exports parse token ext collections string option result vec hash_map punctuated discouraged
Option Result Vec String Box HashMap Parse ToTokens ParseStream ParseBuffer TokenStream Span Error Ident Punctuated Token Flag NameValue NameArgs NameIndex MacroDelimiter
Some None Ok Err bool str usize u8 char Iterator IntoIterator ToString Clone Default Into From FromIterator Extend Fn FnMut FnOnce Drop Sized Copy Send Sync Speculative IdentExt LitStr
Lookahead1 Paren Bracket Brace surround Debug PartialEq StructMeta Spanned T N K Value input_ Ok_ A B C""".split()
FN_NAMES = """drop panic format unreachable vec input fork tokens content value span index name is_next unnamed_index named_used _value_0 _value_1 _0 _1 _a _b _parse_A _parse_B input_0 input_1
parse peek to_tokens call_site new advance_to try_parse_name is_snake_case parenthesized surround insert push collect some none""".split()
VARIANTS = ["Some", "None", "Ok", "Err", "Option", "Result", "Vec", "String", "HashMap", "Box", "Flag", "Parse", "Self_"]
PRELUDE_VARIANTS = ["Some", "None", "Ok", "Err"]
OWN_NAMES = ["S", "Option", "Result", "Vec", "String", "Box", "HashMap", "Parse", "ToTokens", "Error", "Ok", "Some", "None", "Err", "Span", "Ident", "ParseStream", "TokenStream", "input", "tokens", "r#type",
             "std", "syn", "structmeta", "quote", "Token", "Iterator", "T", "größe", "_S", "r#fn", "helpers", "Flag", "NameValue", "NameArgs", "MacroDelimiter", "Ident", "Punctuated"]

def hostile_items(r, taken):
    """items that shadow everything generated code might refer to; `taken`: names of the type namespace in use"""
    out, tns, vns = [], set(taken), set(taken)
    p = r.choice([0.3, 0.7, 1.0])
    names = list(TYPE_NAMES); r.shuffle(names)
    # variants first: Ok, Err, Some and None as variants of an enum in scope
    if r.random() < 0.5:
        vs = [v for v in VARIANTS if v not in tns and r.random() < 0.7]
        if vs:
            out.append("pub enum Weird { " + ", ".join(v + r.choice(["", "(::std::primitive::u32)", " { x: ::std::primitive::u32 }", "(::std::primitive::u32, ::std::primitive::u32)"]) for v in vs) + " }\n#[allow(unused_imports)] pub use self::Weird::*;")
            tns |= set(vs); vns |= set(vs)
    for n in names:
        if n in tns or r.random() > p:
            continue
        tns.add(n)
        lower = n[0].islower()
        kinds = ["mod", "mod", "trait", "enum", "alias", "struct"] if not lower else ["mod", "mod", "mod", "trait", "alias", "enum", "record"]
        if n in PRELUDE_VARIANTS and n not in vns:
            kinds = ["unit", "tuple", "struct", "mod", "trait"]
        k = r.choice(kinds)
        if k == "mod":
            inner = r.choice(["", "pub struct Error;", "pub mod parse { pub trait Parse {} } pub mod helpers { pub mod exports {} }", "pub trait Parse {} pub trait ToTokens {} pub struct Result<T>(T);",
                              "pub mod option { pub enum Option { Some, None } } pub mod result { pub enum Result { Ok, Err } } pub mod string { pub struct String; } pub mod collections { pub struct HashMap; }",
                              "pub struct Flag; pub struct NameValue; pub struct NameArgs; pub fn try_parse_name() {}"])
            out.append(f"pub mod {n} {{ {inner} }}")
        elif k == "trait":
            m = r.choice(["", "fn parse(&self) {}", "fn to_tokens(&self) {}", "fn is_some(&self) -> ::std::primitive::u32 { 0 } fn unwrap(&self) {}", "fn to_string(&self) {} fn into_iter(&self) {} fn collect(&self) {}", "fn parse(input: ::std::primitive::u8); fn new() -> ::std::primitive::u8;", "type Ok; type Error; const X: ::std::primitive::u8;"])
            out.append(f"pub trait {n} {{ {m} }}")
        elif k == "enum":
            out.append(f"pub enum {n} {{ Ok, Err, Some(::std::primitive::u8), None }}")
        elif k == "alias":
            out.append(f"pub type {n} = " + r.choice(["::std::primitive::u8;", "();", "(::std::primitive::u8, ::std::primitive::u8);"]) if r.random() < 0.6 else f"pub type {n}<X> = (X, X);")
        elif k == "unit":
            vns.add(n); out.append(f"pub struct {n};")
        elif k == "tuple":
            vns.add(n); out.append(f"pub struct {n}(pub ::std::primitive::u8);")
        else:
            out.append(f"pub struct {n} {{ pub x: ::std::primitive::u32 }}")
    for n in FN_NAMES + PRELUDE_VARIANTS:
        if n in vns or r.random() > p:
            continue
        if n in PRELUDE_VARIANTS and r.random() < 0.6:
            continue
        vns.add(n)
        out.append(f"pub fn {n}" + r.choice(["() {}", "(x: ::std::primitive::u32) -> ::std::primitive::u32 { x }", "<X>(x: X) -> (X, ::std::primitive::u32) { (x, 0) }"]))
    r.shuffle(out)
    return "\n".join(out)

def hostile(g, r, n):
    """declarations among hostile names; every type of theirs is written with an absolute path"""
    g.absolute = True
    vn = ["Ok", "Err", "Some", "None", "Option", "Result", "A", "Parse", "input", "fork", "Error", "r#fn", "Self_", "value", "Vec", "B", "String", "größe", "_0", "std"]
    leaves = [x for x in dict.fromkeys(PT_LEAVES) if not x.startswith("decoy")]
    for k in range(n):
        own = r.choice(OWN_NAMES)
        host = dict(name=own, items=hostile_items(r, {own, own.replace("r#", "")}) if r.random() < 0.85 else "", wrap=r.choice([None, None, None, "tt", "def"]))
        sp = Speller(r, "abs")
        if r.random() < 0.55:
            prof = dict(names=HOSTILE, named=(0, 6), rest_p=0.35, rare_p=0.02, filter_p=0.15)
            fs = g.sm_fields(prof)
            g.emit_sm(fs, filter=r.random() < 0.15, tags=["hostile"], sp=sp, host=host)
        else:
            prof = dict(leaves=leaves, delim_p=0.25, macro_p=0.3, term_p=0.12, any_p=0.12, peek_p=0.3)
            x = list(vn); r.shuffle(x)
            if r.random() < 0.5:
                g.emit_pt(g.pt_variants(prof), True, tags=["hostile"], sp=sp, host=host, vnames=x, fnames=HOSTILE)
            else:
                g.emit_pt([g.pt_fields(prof)], False, tags=["hostile"], sp=sp, host=host, fnames=HOSTILE)
    # type parameters with such names
    for k in range(max(4, n // 5)):
        tp = r.choice(["Option", "Result", "Ok", "Some", "Vec", "String", "Error", "Parse", "ParseStream", "Iterator", "Box", "syn", "std", "structmeta", "input", "tokens", "T", "Self_", "HashMap", "Span"])
        own = r.choice([x for x in OWN_NAMES if x != tp])
        host = dict(name=own, items=hostile_items(r, {own, tp, own.replace("r#", "")}) if r.random() < 0.6 else "")
        lt = r.choice(["", "'a, ", "'_input, "])
        gn = dict(params=f"<{lt}{tp}>", where=f"where {tp}: ::syn::parse::Parse + ::quote::ToTokens ", args="<" + ("'static, " if lt else "") + "LitInt>",
                  obs_params=f"<{lt}{tp}: Obs + ::syn::parse::Parse + ::quote::ToTokens>", obs_args=f"<{lt}{tp}>", nomake=True)
        ltt = f"::vengine::leaf::Lt<{lt[:-2]}, {tp}>" if lt else tp
        if r.random() < 0.5:
            fs = [dict(name=None, form="Value", wrap="Opt", ty="LitInt", tytext=tp), dict(name="a", form=r.choice(["Value", "NV", "NAList", "NAOpt"]), wrap="Req", ty="LitInt", tytext=ltt), dict(name="b", form="List", wrap="Opt", ty="LitInt", tytext=tp)]
            g.emit_sm(fs, tags=["hostile"], generics=gn, name_mode="own", style="named", sp=Speller(r, "abs"), host=host)
        else:
            fs = [pt_field("LitInt"), pt_field(delims="["), pt_field("LitInt")]
            fs[0]["tytext"] = tp; fs[2]["tytext"] = ltt
            if r.random() < 0.5:
                g.emit_pt([fs], False, tags=["hostile"], generics=gn, sp=Speller(r, "abs"), host=host)
            else:
                x = list(vn); r.shuffle(x)
                g.emit_pt([[pt_field("Ident")], fs], True, tags=["hostile"], generics=gn, sp=Speller(r, "abs"), host=host, vnames=x)
    g.absolute = False

LONG_LEAVES = ["LitInt", "Ident", "LitStr", "Token![+]", "Token![=]", "Token![->]", "LitBool", "Lit", "kw::alpha"]
def long_pt(g, r, n, pairs=True):
    """many fields: every length from 7 on, then any"""
    for k in range(n):
        m = 7 + k if k < 14 else r.randint(6, 40)
        fs = [pt_field(r.choice(LONG_LEAVES)) for _ in range(m)]
        if k % 3 == 2:
            i = r.randrange(m - 1)
            fs[i] = pt_field(delims=r.choice("([{"))
        g.emit_pt([fs], False)

def long_enum(g, r, n, peek=0.0):
    """many variants: every number from 7 on, then any"""
    for k in range(n):
        m = 7 + k if k < 12 else r.randint(6, 36)
        vs = []
        for i in range(m):
            first = r.choice(["LitInt", "LitStr", "Ident", "LitChar", "LitBool", "Token![+]", "Token![->]", "Token![=]", "kw::alpha", "kw::beta", "kw::gamma", "Token![fn]", "Token![self]", "Lifetime"])
            v = [pt_field(first)]
            if r.random() < peek:
                v[0] = pt_field(first, peek=True)
            for _ in range(r.randint(0, 3)):
                v.append(pt_field(r.choice(LONG_LEAVES)))
            if r.random() < 0.15:
                v.append(pt_field(delims=r.choice("([{")))
                v.append(pt_field(r.choice(LONG_LEAVES)))
            vs.append(v)
        g.emit_pt(vs, True)
def deep_pt(g, r):
    """delimiters opened inside one another, more of them than usual"""
    for k in (6, 8, 9, 12, 17, 20):
        o = [r.choice("([{") for _ in range(k)]
        fs = []
        for c in o:
            if r.random() < 0.3:
                fs.append(pt_field(r.choice(LONG_LEAVES)))
            fs.append(pt_field(delims=c))
        fs.append(pt_field("LitInt"))
        j = r.randint(0, k)
        if j:
            fs.append(pt_field("Ident", delims="".join({"(": ")", "[": "]", "{": "}"}[c] for c in reversed(o[k - j:]))))
        g.emit_pt([fs], False)
        # one after another
        fs = []
        for i, c in enumerate(o):
            d = ({"(": ")", "[": "]", "{": "}"}[o[i - 1]] if i else "") + c
            fs.append(pt_field(delims=d))
            if r.random() < 0.6:
                fs.append(pt_field(r.choice(LONG_LEAVES)))
        g.emit_pt([fs], False)

def term_fixed(g, r):
    for sep in ("Token![,]", "Token![;]", "Token![|]"):
        for any_ in (False, True):
            t = "Ident" if any_ else "LitInt"
            g.emit_pt([[pt_field(t, term=sep, any=any_)]], False)
            g.emit_pt([[pt_field(delims="("), pt_field(t, term=sep, any=any_), pt_field("Ident", delims=")")]], False)
            g.emit_pt([[pt_field(delims="{"), pt_field("LitStr"), pt_field(t, term=sep, any=any_), pt_field(delims="}["), pt_field("Ident", any=True), pt_field(t, term=sep, any=any_)]], False)
    g.emit_pt([[pt_field("LitInt", term="Token![,]")], [pt_field("Ident", any=True), pt_field("Ident")]], True)
    g.emit_pt([[pt_field("Ident", any=True), pt_field("Ident"), pt_field("Ident", any=True)]], False)
    g.emit_pt([[pt_field("Ident"), pt_field("Ident", any=True)], [pt_field("Ident", any=True), pt_field("Ident")], [pt_field("Ident", any=True)]], True)

def delim_fixed(g, r):
    """every opening symbol; nested, adjacent, closed and reopened, empty, closed at the end or not"""
    F = pt_field
    for c, k in (("(", ")"), ("[", "]"), ("{", "}")):
        o, l = r.choice([("(", ")"), ("[", "]"), ("{", "}")])
        g.emit_pt([[F(delims=c), F("LitInt")]], False)
        g.emit_pt([[F(delims=c), F("LitInt"), F("LitStr", delims=k)]], False)
        g.emit_pt([[F(delims=c), F(delims=o), F("LitInt"), F("Ident", delims=l + k)]], False)
        g.emit_pt([[F(delims=c), F("LitInt"), F(delims=k + o), F("LitStr"), F("Ident", delims=l)]], False)
        g.emit_pt([[F(delims=c + k), F("LitInt")]], False)
        g.emit_pt([[F("Ident"), F(delims=c), F(delims=o), F("LitInt"), F("LitInt", delims=l), F("LitStr", delims=k), F("Token![,]")]], False)
        g.emit_pt([[F("Ident"), F(delims=c)], [F("Ident"), F(delims=o), F("LitInt")], [F(delims=o), F(delims=c), F(delims=o), F("Ident", delims=l), F("LitInt", delims=k)]], True)
    g.emit_pt([[F(delims="(", macro=True), F("LitInt")]], False)
    g.emit_pt([[F(delims="{", macro=True), F(delims="[", macro=True), F("LitInt", delims="]"), F("Ident", delims="}")]], False)
    g.emit_pt([[F("Ident"), F(delims="[", macro=True), F("LitInt"), F("Token![;]", delims="]")], [F(delims="(", macro=True), F("Ident")]], True)

def stream_fixed(g, r):
    """fields that take everything that is left"""
    F = pt_field
    a = g.emit_pt([[F("LitInt"), F("TokenStream")], [F(delims="("), F("LitInt"), F("TokenStream", delims=")")], [F("Ident"), F("LitInt")], [F("TokenStream")]], True)
    g.emit_pt([[F("Ident"), F("TokenStream"), F("Option<LitInt>"), F("TokenStream")], [F("LitInt"), F(delims="["), F("TokenStream")], [F("LitStr"), F({"ref": a["id"]})], [F({"ref": a["id"]}), F("LitInt")], [F("LitFloat")]], True)
    g.emit_pt([[F("kw::alpha", peek=True), F("TokenStream")], [F("LitInt"), F({"ref": a["id"]})], [F("TokenStream")]], True)
    g.emit_pt([[F("LitInt"), F("TokenStream"), F({"ref": a["id"]})]], False)

def peek_fixed(g, r):
    F = pt_field
    P = lambda t, **k: F(t, peek=True, **k)
    # one, two and three tokens; a later variant would accept what the committed one rejects
    g.emit_pt([[P("Ident"), F("LitInt")], [F("Ident"), F("LitStr")]], True)
    g.emit_pt([[P("Ident"), P("Token![=]"), F("LitInt")], [P("Ident"), F("LitStr")], [F("Ident")]], True)
    g.emit_pt([[P("Ident"), P("Token![=]"), P("LitInt"), F("Token![,]")], [F("Ident"), F("Token![=]"), F("LitInt")], [F("LitStr")]], True)
    g.emit_pt([[F("LitInt")], [P("LitInt"), F("LitStr")], [F("LitInt"), F("LitStr")]], True)
    g.emit_pt([[P("Ident", any=True), F("LitInt")], [F("Token![self]"), F("LitStr")], [F("Token![fn]")]], True)
    g.emit_pt([[P(None, delims="("), F("LitInt")], [F(delims="("), F("Ident")], [P(None, delims="["), F("LitInt")], [F("Ident")]], True)
    g.emit_pt([[F(delims="("), F("Ident"), P("LitInt", delims=")")], [F("LitInt")]], True) if False else None
    g.emit_pt([[P("Ident"), P(None, delims="("), F("LitInt")], [P("Ident"), P(None, delims="{"), F("LitStr")], [F("Ident"), F(delims="("), F("Ident")]], True)
    g.emit_pt([[P("kw::alpha"), F("Ident")], [P("kw::beta")], [P("Ident"), P("Ident"), F("LitInt")], [F("Ident")]], True)
    g.emit_pt([[P("Ident"), P("Ident", any=True), F("LitInt")], [P("Ident"), P("Token![->]"), P("LitInt")], [F("Ident"), F("Expr")]], True)
    g.emit_pt([[P("Token![=>]"), F("LitInt")], [P("Token![=]"), F("LitInt")], [P("Token![=]"), P("LitStr")], [F("Token![=]")]], True)

def recursive(g, r):
    """types that contain themselves; `deep`: how one level is written"""
    F = pt_field
    tags = ["nested", "recursive"]
    def me(ty="S", caps=("parse",)):
        sid = g.new_id()
        g.by_id[sid] = dict(id=sid, ty=ty, caps=list(caps))
        return sid
    sid = me(caps=("parse", "print", "make"))
    g.emit_pt([[F("LitInt")], [F(delims="("), F({"ref": sid}, term="Token![,]")]], True, sid=sid, tags=tags, generics=dict(nomake=True))["deep"] = ["(HOLE)", "(HOLE,)", "(1, HOLE)", "(HOLE, 2, (3))"]
    sid = me(caps=("parse", "print", "make"))
    def boxed(sid, **kw):
        f = F({"ref": sid}, **kw); f["tytext"] = f"Box<super::{sid}::S>"
        return f
    g.emit_pt([[F("Ident"), F(delims="{"), boxed(sid), F(delims="}["), boxed(sid), F("Ident", delims="]")], [F("LitStr")], [F("Token![fn]", peek=True), boxed(sid)]], True, sid=sid, tags=tags, generics=dict(nomake=True))["deep"] = \
        ["fn HOLE", "x { HOLE } [\"s\"] y", "x { \"s\" } [HOLE] y"]
    sid = me()
    g.emit_sm([dict(name="leaf", form="Value", wrap="Opt", ty="LitInt"), dict(name="node", form="List", wrap="Opt", ty={"ref": sid})], sid=sid, tags=tags, style="named", name_mode="own")["deep"] = ["node(HOLE)", "leaf = 1, node(HOLE)", "node(HOLE), leaf = 2"]
    sid = me()
    g.emit_sm([dict(name=None, form="List", wrap="Req", ty="LitInt"), dict(name="sub", form="NAList", wrap="Opt", ty={"ref": sid}), dict(name="f", form="Flag", wrap="Req", ty="LitInt")], sid=sid,
              tags=tags, style="named", name_mode="own")["deep"] = ["sub(HOLE)", "1, 2, sub(HOLE), f", "f, sub(HOLE)"]
    sid = me()
    bx = lambda sid: f"Box<super::{sid}::S>"
    g.emit_sm([dict(name="k", form="NA", wrap="Opt", ty={"ref": sid}, tytext=bx(sid)), dict(name="v", form="Value", wrap="Opt", ty={"ref": sid}, tytext=bx(sid)), dict(name="b", form="Bool", wrap="Req", ty="LitInt"),
               dict(name=None, form="NA", wrap="Rest", ty={"ref": sid})], sid=sid, tags=tags, style="named", name_mode="own")["deep"] = ["k(HOLE)", "b, k(HOLE)", "v = HOLE", "k(b), v = HOLE", "other(HOLE)", "other(HOLE), k(b), b"]
    # every level ends with everything that is left
    sid = me(caps=("parse", "print"))
    g.emit_pt([[F("LitInt"), boxed(sid)], [F("Ident"), boxed(sid)], [F(delims="("), boxed(sid), boxed(sid, delims=")")], [F("LitStr"), F("TokenStream")]], True, sid=sid, tags=tags, generics=dict(nomake=True))["deep"] = \
        ["1 HOLE", "x HOLE", "(HOLE) \"s\"", "(1 \"s\") HOLE"]
    # two types in turn
    a, b = me(), me(caps=("parse",))
    g.emit_sm([dict(name="pt", form="Value", wrap="Opt", ty={"ref": b}, tytext=bx(b)), dict(name="n", form="NVOpt", wrap="Opt", ty="LitInt"), dict(name="list", form="NAOptList", wrap="Opt", ty={"ref": b})], sid=a, tags=tags, style="named", name_mode="own")["deep"] = \
        ["pt = [HOLE]", "n, pt = [HOLE]", "list([HOLE])", "list(7, [HOLE], 8), n = 3"]
    f = F({"ref": a}); f["tytext"] = bx(a)
    g.emit_pt([[F(delims="["), f], [F("LitInt")]], True, sid=b, tags=tags, derives=("Parse",))["deep"] = ["[pt = HOLE]", "[list(HOLE)]", "[n, list(1, HOLE)]"]

def clone_fields(fs):
    return [dict(f) for f in fs]

def spelled(g, r, n):
    """pairs: plain declaration and the same with other spellings of the recognised types; and unrelated types of the same name"""
    prof = dict(rare_p=0, named=(1, 4), rest_p=0.45, named_leaves=["LitInt", "LitStr", "Ident"], pos_leaves=["LitInt", "LitStr", "Expr"])
    for k in range(n):
        fs = g.sm_fields(prof)
        if not fs:
            continue
        a = g.emit_sm(fs, tags=["helper"], style="named", name_mode="own", filter=False)
        mode = r.choice(["path", "path", "frag"])
        sp = Speller(r, "path") if r.random() < 0.8 or mode == "path" else Speller(r, "plain")
        g.emit_sm(clone_fields(fs), tags=["spelled", mode], style="named", name_mode="own", sp=sp, frag=mode == "frag", twin=a["id"])
    # every spelling of every type at least once
    for name, sps in SPELL.items():
        for spx in sps:
            sp = lambda x, name=name, spx=spx: spx if x == name else x
            if name == "MacroDelimiter":
                continue
            form = {"Option": ("Value", "Opt"), "Vec": ("List", "Req"), "HashMap": ("Value", "Rest"), "String": ("Value", "Rest"), "bool": ("Bool", "Req"), "Flag": ("Flag", "Req"),
                    "NameValue": ("NVOpt", "Opt"), "NameArgs": ("NAOptList", "Opt")}[name]
            fs = [dict(name=None if form[1] == "Rest" else "a", form=form[0], wrap=form[1], ty="LitInt"), dict(name="k", form="Value", wrap="Opt", ty="LitInt")]
            if name in ("Option", "Vec"):
                fs.insert(0, dict(name=None, form="Value" if name == "Option" else "List", wrap="Opt" if name == "Option" else "Req", ty="LitInt"))
            if name == "Option":
                fs.append(dict(name="n", form="NVOpt", wrap="Req", ty="LitInt"))
                fs.append(dict(name="o", form="NAOpt", wrap="Req", ty="LitInt"))
            a = g.emit_sm(fs, tags=["helper"], style="named", name_mode="own")
            g.emit_sm(clone_fields(fs), tags=["spelled", "each"], style="named", name_mode="own", sp=sp, twin=a["id"], frag=False)
            if r.random() < 0.4:
                g.emit_sm(clone_fields(fs), tags=["spelled", "each"], style="named", name_mode="own", sp=sp, twin=a["id"], frag=True)
    # decoys: as values in every form
    dec = ["decoy::Option<LitInt>", "decoy::Vec<LitInt>", "decoy::NameValue<LitInt>", "decoy::NameArgs<LitInt>", "decoy::HashMap<LitInt>", "decoy::Flag", "decoy::bool", "decoy::String"]
    for d in dec:
        g.emit_sm([dict(name="a", form="Value", wrap="Req", ty=d), dict(name="b", form="Bool", wrap="Req", ty="LitInt")], tags=["spelled", "decoy"], style="named", name_mode="own")
        g.emit_sm([dict(name=None, form="Value", wrap=r.choice(["Req", "Opt"]), ty=d), dict(name="c", form=r.choice(["List", "NA", "NAOpt", "NVOpt", "NV"]), wrap="Opt", ty=d)], tags=["spelled", "decoy"], style="named", name_mode="own")
        g.emit_sm([dict(name=None, form="List", wrap="Req", ty=d), dict(name=None, form=r.choice(REST_FORMS), wrap="Rest", ty=d)], tags=["spelled", "decoy"], style="named", name_mode="own")
    for t, d in (("decoy::std::option::Option<LitInt>", "decoy::Option<LitInt>"), ("decoy::std::vec::Vec<LitInt>", "decoy::Vec<LitInt>"), ("decoy::structmeta::NameValue<LitInt>", "decoy::NameValue<LitInt>"),
                 ("decoy::structmeta::Flag", "decoy::Flag"), ("decoy::std::collections::HashMap<std::string::String, LitInt>", "decoy::HashMap<LitInt>")):
        g.emit_sm([dict(name="a", form="Value", wrap="Req", ty=d, tytext=t), dict(name="b", form="Bool", wrap="Req", ty="LitInt"), dict(name="c", form="List", wrap="Opt", ty=d, tytext=t)], tags=["spelled", "decoy"], style="named", name_mode="own")
    # decoys under paths that differ from the public ones by a segment, or are made of the same segments
    paths = [(x, f"{m}::{q}::{x}") for x, ns in NS_OF.items() for q in ns for m in DECOY_MODS]
    paths += [(x, decoy_path(r, x)) for x in NS_OF for _ in range(25)]
    r.shuffle(paths)
    while paths:
        fs, first = [], set()
        for k in range(r.choice([1, 2, 8, 14, 20])):
            if not paths:
                break
            x, path = paths.pop()
            first.add(path.split("::")[0])
            d = f"decoy::{x}" + ("" if x in ("Flag", "bool", "String") else "<LitInt>")
            t = path + ("<std::string::String, LitInt>" if x == "HashMap" else "" if x in ("Flag", "bool", "String") else "<LitInt>")
            t = t.replace("<std::", "<::std::")
            f = dict(name=f"a{k}", form="Value", wrap="Req" if k < 2 and r.random() < 0.5 else "Opt", ty=d, tytext=t)
            if x not in ("Flag", "bool") or f["wrap"] == "Opt":
                f["form"] = r.choice(["Value", "Value", "NV", "NA", "List"])
            if k == 0 and r.random() < 0.3:
                f.update(name=None, form="Value")
            fs.append(f)
        host = dict(name="S", items=f"use super::*; use ::vengine::leaf::decoy::tree::{{{', '.join(sorted(first))}}};")
        g.emit_sm(fs + [dict(name="b", form="Bool", wrap="Req", ty="LitInt")], tags=["spelled", "decoy"], style="named", name_mode="own", host=host, sp=lambda y: "::" + NS_OF[y][0] + "::" + y)
    # Parse / ToTokens: MacroDelimiter and macro_rules fragments
    for _ in range(max(4, n // 4)):
        mode = r.choice(["frag", "frag", "path"])
        st = g.rng.getstate()
        prof = dict(delim_p=0.35, macro_p=0.6, term_p=0.1, any_p=0.1)
        fs = g.pt_fields(prof)
        if not fs:
            continue
        names = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"]
        a = g.emit_pt([fs], False, tags=["helper"], styles=["named"])
        g.emit_pt([clone_fields(fs)], False, tags=["spelled", mode], styles=["named"], sp=Speller(r, "path"), frag=mode == "frag", twin=a["id"])
    for spx in SPELL["MacroDelimiter"]:
        fs = [pt_field(delims="(", macro=True), pt_field("LitInt")]
        a = g.emit_pt([fs], False, tags=["helper"], styles=["named"])
        g.emit_pt([clone_fields(fs)], False, tags=["spelled", "each"], styles=["named"], sp=lambda x, spx=spx: spx, twin=a["id"])

NS_OF = {"Option": ["std::option", "core::option"], "Vec": ["std::vec", "alloc::vec"], "NameValue": ["structmeta"], "NameArgs": ["structmeta"], "Flag": ["structmeta"],
         "HashMap": ["std::collections", "std::collections::hash_map"], "bool": ["std::primitive", "core::primitive"], "String": ["std::string", "alloc::string"]}
DECOY_MODS = "std core alloc option vec collections hash_map string primitive structmeta syn meta my prelude v1 types util args attr inner private helpers exports mac lib options result map".split()
def decoy_path(r, x):
    """a path to another type called x"""
    while True:
        if r.random() < 0.3:
            p = [r.choice(DECOY_MODS) for _ in range(r.randint(1, 4))]
        else:
            p = r.choice(NS_OF[x]).split("::")
            y = r.random()
            if y < 0.4:
                p.insert(0, r.choice(DECOY_MODS))
            elif y < 0.6:
                p[r.randrange(len(p))] = r.choice(DECOY_MODS)
            elif y < 0.8:
                p.insert(r.randint(0, len(p)), r.choice(DECOY_MODS))
            else:
                p.pop(r.randrange(len(p)))
        if p and not any(n.split("::")[-len(p):] == p for n in NS_OF[x]):
            return "::".join(p) + "::" + x

def generic(g, r, n):
    """generic declarations; described by their instances"""
    leaves = ["LitInt", "LitStr", "Ident", "Lifetime", "Lit"]
    bounds = ["", "", "syn::parse::Parse", "syn::parse::Parse + Clone", "Clone"]
    def params(k):
        """(declaration of parameters, where, arguments, uses): uses = list of (text, description)"""
        ps, wh, args, uses, obsp, names = [], [], [], [], [], []
        order = []
        kinds = r.choice([["T"], ["T"], ["T", "U"], ["'a", "T"], ["T", "N"], ["'a", "T", "N"], ["N"], ["T", "U", "N"], ["'a"], ["'a", "'b", "T"], ["T", "U", "V"]])
        if r.random() < 0.4:
            kinds = kinds + ["P"]     # a parameter that occurs in phantom position only
        if r.random() < 0.25:
            kinds = kinds + ["I"]     # a parameter of which only an associated type occurs
        tyn = {"T": r.choice(["T", "T", "Value", "Input", "K"]), "U": "U", "V": "V2"}
        env = {}
        ip = []      # parameters of the Obs impl
        for x in kinds:
            if x.startswith("'"):
                ps.append(x); args.append("'static"); names.append(x); ip.append(x)
            elif x == "N":
                v = r.randint(0, 3)
                ps.append("const N: usize"); args.append(str(v)); names.append("N"); env["N"] = v; ip.append("const N: usize")
            elif x == "P":
                sized = r.random() < 0.6
                ps.append("P" if sized else "P: ?Sized"); names.append("P"); env["P"] = True
                args.append(r.choice(["String", "fn()", "std::convert::Infallible", "std::cell::Cell<u8>"] if sized else ["str", "dyn std::any::Any", "[u8]"]))
                ip.append(ps[-1])
            elif x == "I":
                inst = r.choice(leaves)
                b = r.choice(["Iterator", "IntoIterator", "Iterator<Item: Clone>"])
                ps.append(f"I: {b}"); names.append("I"); args.append(f"std::vec::IntoIter<{inst}>")
                env["I"] = (r.choice(["I::Item", "<I as Iterator>::Item"]) if b != "IntoIterator" else r.choice(["I::Item", "<I as std::iter::IntoIterator>::Item"]), inst)
                ip.append(f"I: {b}<Item: Obs>" if "<" not in b else "I: Iterator<Item: Clone + Obs>")
            else:
                t = tyn[x]
                inst = r.choice(leaves)
                env[x] = (t, inst)
                b = r.choice(bounds)
                w = r.random()
                if b and w < 0.4:
                    wh.append(f"{t}: {b}")
                    ps.append(t)
                else:
                    ps.append(t + (": " + b if b else "") )
                args.append(inst); names.append(t)
                ip.append(f"{t}: Obs" + (f" + {b}" if b else ""))
        return kinds, ps, wh, args, env, names, ip
    def use(env, kinds, kk=None):
        """a type that uses the parameters: (text, description)"""
        c = []
        for x in ("T", "U", "V"):
            if x in env:
                c.append((env[x][0], env[x][1]))
        if "'a" in kinds:
            t, d = c[0] if c else ("LitInt", "LitInt")
            c.append((f"Lt<'a, {t}>", d))
        if "'b" in kinds:
            t, d = c[0] if c else ("LitInt", "LitInt")
            c.append((f"Lt<'b, {t}>", d))
        if "N" in env:
            t, d = c[0] if c else ("LitStr", "LitStr")
            c.append((f"Arr<{t}, N>", {"arr": d, "n": env["N"]}))
        if "P" in env:
            c.append(("Ph<P>", "Ident"))
        if "I" in env:
            c.append(env["I"])
        return c
    def finish(kinds, ps, wh, args, names, ip, used_types, default=False):
        # every parameter must be used, and Parse/ToTokens bounds hold where the fields need them: derived impls
        # carry the declared bounds only, so the declaration states them
        return dict(params="<" + ", ".join(ps) + ">", where=("where " + ", ".join(wh) + " ") if wh else "", args="<" + ", ".join(args) + ">",
                    obs_params="<" + ", ".join(ip) + ">", obs_args="<" + ", ".join(names) + ">")
    def assumed(args, names):
        """where clauses that hold for the instance only: an implementation for any parameters has them as assumptions"""
        if r.random() > 0.3 or not names:
            return [], ""
        full = dict(zip(names, args))
        def inst(t):
            for a, b in full.items():
                t = re.sub(re.escape(a) + r"(?!\w)" if a.startswith("'") else rf"(?<![\w']){re.escape(a)}\b", lambda m: b, t)
            return t
        me = "S<" + ", ".join(names) + ">"
        tys = [n for n in names if not n.startswith("'") and n not in ("N", "P", "I")]
        cand = ["Self", "Self", me, f"(Self,)", f"Option<{me}>"] + [x for t in tys for x in (f"[{t}; 2]", f"({t}, u8)", f"fn({t}) -> {t}", f"Vec<{t}>")]
        out, pre = [], "pub trait Holds {}\n"
        for c in dict.fromkeys(r.choice(cand) for _ in range(r.choice([1, 1, 2]))):
            real = inst(c).replace("Self", inst(me))
            if f"impl Holds for {real} " in pre:
                continue
            out.append(f"{c}: Holds"); pre += f"impl Holds for {real} {{}}\n"
        return out, pre
    k = 0
    while k < n:
        kinds, ps, wh, args, env, names, ip = params(0)
        # what the fields need
        need_p = "syn::parse::Parse"
        tps = [env[x][0] for x in ("T", "U", "V") if x in env]
        if "I" in env:
            tps.append("I::Item")
        if r.random() < 0.55:
            # StructMeta: type parameters need Parse
            for t in tps:
                if not any(p.startswith(t + ":") and "Parse" in p for p in ps) and not any(w.startswith(t + ":") and "Parse" in w for w in wh):
                    wh.append(f"{t}: {need_p}")
            ip2 = []
            for x in ip:
                nm = x.split(":")[0]
                ip2.append(x)
            uses = use(env, kinds)
            fs = []
            ft = {}
            pool = list(PLAIN); r.shuffle(pool)
            opts = []
            allu = list(uses)
            # all parameters occur
            for i, (t, d) in enumerate(allu):
                form = r.choice(["Value", "Value", "List", "NV", "NA", "NVOpt", "NAOpt", "NAList", "NAOptList"])
                fs.append(dict(name=pool.pop(), form=form, wrap=r.choice(["Req", "Opt"]), ty=d, tytext=t))
            t, d = r.choice(allu)
            x = r.random()
            if x < 0.3:
                fs.insert(0, dict(name=None, form="Value", wrap=r.choice(["Req", "Opt"]), ty=d, tytext=t))
            elif x < 0.5:
                fs.append(dict(name=None, form="List", wrap="Req", ty=d, tytext=t))
            elif x < 0.7:
                fs.append(dict(name=None, form=r.choice(REST_FORMS), wrap="Rest", ty=d, tytext=t))
            if r.random() < 0.4:
                fs.append(dict(name=pool.pop(), form=r.choice(["Bool", "Flag"]), wrap="Req", ty="LitInt"))
            more, pre = assumed(args, names)
            wh += more
            r.shuffle(wh)
            gn = finish(kinds, ps, wh, args, names, ip2, None)
            gn["pre"] = pre
            gn["obs_args"] = gn["obs_args"] + (" " + gn["where"] if wh else "")
            g.emit_sm(fs, tags=["generic"] + (["assumed"] if pre else []), generics=gn, name_mode="own", sp=Speller(r, "mix"), filter=r.random() < 0.1, style=r.choice(["named", "named", "tuple"]))
        else:
            for t in tps:
                need = [b for b in ("syn::parse::Parse", "quote::ToTokens") if not any(p.startswith(t + ":") and b in p for p in ps) and not any(w.startswith(t + ":") and b in w for w in wh)]
                if need:
                    wh.append(f"{t}: " + " + ".join(need))
            uses = use(env, kinds)
            is_enum = r.random() < 0.5
            nv = r.choice([2, 3]) if is_enum else 1
            vs = []
            ft = {}
            for vi in range(nv):
                fs = []
                us = list(uses) if vi == 0 else [u for u in uses if r.random() < 0.6]
                if is_enum:
                    fs.append(pt_field(["kw::alpha", "kw::beta", "kw::gamma"][vi], peek=r.random() < 0.3))
                dl = r.random() < 0.4
                if dl:
                    fs.append(pt_field(delims=r.choice("([{"), macro=r.random() < 0.2))
                for t, d in us:
                    f = pt_field(d)
                    f["tytext"] = t
                    if r.random() < 0.15 and (t, d) == us[-1]:
                        f["term"] = "Token![,]"
                    fs.append(f)
                vs.append(fs)
            more, pre = assumed(args, names)
            wh += more
            r.shuffle(wh)
            gn = finish(kinds, ps, wh, args, names, ip, None)
            gn["pre"] = pre
            gn["obs_args"] = gn["obs_args"] + (" " + gn["where"] if wh else "")
            gn["field_make"] = {}
            for vi, fs in enumerate(vs):
                for i, f in enumerate(fs):
                    t = f.get("tytext", "")
                    if f["term"] or not t:
                        continue
                    if t.startswith("Lt<"):
                        gn["field_make"][(vi, i)] = f"Lt({g.pt_make(f)}, std::marker::PhantomData)"
                    elif t.startswith("Ph<"):
                        gn["field_make"][(vi, i)] = f"Ph({g.pt_make(f)}, std::marker::PhantomData)"
            bad = any(f["term"] and f.get("tytext", "").startswith(("Lt<", "Arr<", "Ph<")) for fs in vs for f in fs)
            if bad:
                gn["nomake"] = True
            g.emit_pt(vs, is_enum, tags=["generic"] + (["assumed"] if pre else []), generics=gn, sp=Speller(r, "mix"))
        k += 1
    # defaults on parameters, bounds in every place, lifetimes bounds, associated types
    fixed = [
        ("<T = LitInt>", "where T: syn::parse::Parse ", "", "<T: Obs>", "<T> where T: syn::parse::Parse"),
        ("<T: syn::parse::Parse + 'static = LitInt>", "", "", "<T: Obs + syn::parse::Parse + 'static>", "<T>"),
        ("<'a, 'b: 'a, T: 'a + syn::parse::Parse>", "where 'b: 'a ", "<'static, 'static, LitInt>", "<'a, 'b: 'a, T: 'a + syn::parse::Parse + Obs>", "<'a, 'b, T>"),
        ("<T, const N: usize = 2>", "where T: syn::parse::Parse, Arr<T, N>: syn::parse::Parse ", "<LitInt>", "<T: Obs, const N: usize>", "<T, N> where T: syn::parse::Parse, Arr<T, N>: syn::parse::Parse"),
        ("<T: ?Sized + syn::parse::Parse>", "where T: Sized ", "<LitInt>", "<T: Obs + syn::parse::Parse>", "<T>"),
        ("<T>", "where T: syn::parse::Parse + for<'x> PartialEq<&'x str>, for<'y> &'y T: Sized ", "<Ident>", "<T: Obs>", "<T> where T: syn::parse::Parse + for<'x> PartialEq<&'x str>"),
    ]
    for pa, wh, args, op, oa in fixed:
        lt = "'a, 'b" in pa
        cn = "const N" in pa
        inst = "Ident" if "Ident" in args else "LitInt"
        t2 = "Lt<'b, T>" if lt else "Arr<T, N>" if cn else "T"
        d2 = {"arr": inst, "n": 2} if cn else inst
        gn = dict(params=pa, where=wh, args=args, obs_params=op, obs_args=oa)
        fs = [dict(name=None, form="Value", wrap="Opt", ty=inst, tytext="T"), dict(name="a", form="Value", wrap="Req", ty=d2, tytext=t2), dict(name="b", form="NAList", wrap="Opt", ty=inst, tytext="T")]
        if lt:
            fs.append(dict(name="c", form="Value", wrap="Opt", ty=inst, tytext="Lt<'a, T>"))
        g.emit_sm(fs, tags=["generic"], generics=gn, name_mode="own", style="named")
        fs2 = [pt_field(inst), pt_field(delims="["), pt_field(d2)]
        fs2[0]["tytext"] = "T"; fs2[2]["tytext"] = t2
        gn = dict(gn, nomake=True)
        if lt:
            fs2.append(dict(pt_field(inst), tytext="Lt<'a, T>"))
        g.emit_pt([fs2], False, tags=["generic"], generics=gn, derives=("Parse",))
        g.emit_pt([fs2, [pt_field("LitStr")]], True, tags=["generic"], generics=gn, derives=("Parse",))

    # a where clause, but no type parameters
    for pa, wh, args, names, tys in [
        ("<const N: usize>", "where K<N>: Has ", "<1>", "<N>", ["Kn<N>"]),
        ("<'a>", "where 'a: 'static ", "<'static>", "<'a>", ["St<'a>"]),
        ("<'a, const N: usize>", "where K<N>: Has, 'a: 'static, ", "<'static, 1>", "<'a, N>", ["St<'a>", "Kn<N>"]),
        ("<'a, 'b, const M: usize, const N: usize>", "where K<M>: Has, 'b: 'static + 'a, K<N>: Has ", "<'static, 'static, 1, 1>", "<'a, 'b, M, N>", ["St<'b>", "Kn<N>", "Lt<'a, LitInt>", "Kn<M>"]),
        ("", "where LitInt: Clone, for<'x> &'x LitInt: Sized ", "", "", ["LitInt"]),
        ("<>", "where ", "<>", "<>", ["LitInt", "LitInt"]),
    ]:
        gn = dict(params=pa, where=wh, args=args, obs_params=pa, obs_args=names + " " + wh, nomake=True)
        nm = list(PLAIN); r.shuffle(nm)
        fs = [dict(name=None, form="Value", wrap="Opt", ty="LitInt", tytext=tys[-1])] + [dict(name=nm.pop(), form=r.choice(["Value", "List", "NV", "NAOpt", "NAList"]), wrap=r.choice(["Req", "Opt"]), ty="LitInt", tytext=t) for t in tys]
        g.emit_sm(fs, tags=["generic"], generics=gn, name_mode="own", style=r.choice(["named", "tuple"]), sp=Speller(r, "mix"))
        fs = [dict(pt_field("LitInt"), tytext=t) for t in tys]
        fs.insert(r.randint(0, len(fs)), pt_field(delims=r.choice("([{")))
        g.emit_pt([fs], False, tags=["generic"], generics=gn, sp=Speller(r, "mix"))
        g.emit_pt([fs, [pt_field("LitStr")]], True, tags=["generic"], generics=gn, sp=Speller(r, "mix"))

def embed(g, r, n):
    """outer declarations around inner ones"""
    small = dict(rare_p=0, named=(1, 3), opt=(0, 1), req=(0, 1), big_p=0, named_leaves=["LitInt", "LitStr", "Ident"], pos_leaves=["LitInt", "Expr"])
    inner_sm, inner_pt = [], []
    for _ in range(max(4, n // 8)):
        fs = g.sm_fields(small)
        inner_sm.append(g.emit_sm(fs, tags=["inner"]))
    for _ in range(max(4, n // 8)):
        v = g.pt_random(dict(enum_p=0.5, delim_p=0.2, term_p=0.1, any_p=0.1, peek_p=0.2, nw=[0, 3, 4, 3, 1, 0, 0]), tags=["inner"])
        inner_pt.append(v)
    def E(s, inner, template, path):
        s["embed"] = dict(inner=inner["id"], template=template, path=path)
    F = pt_field
    made = []
    for k in range(n):
        sm = r.random() < 0.55
        inner = r.choice((inner_sm if sm else inner_pt) + (made if r.random() < 0.35 else []))
        ty = {"ref": inner["id"]}
        is_sm = inner["kind"] == "sm"
        x = r.randint(0, 9)
        nm = dict(style="named", name_mode="own")
        if x == 0:
            s = g.emit_sm([dict(name="k", form="NA", wrap="Req", ty=ty), dict(name="other", form="Value", wrap="Opt", ty="LitInt")], **nm)
            E(s, inner, r.choice(["\n other = 1 , k ( @@ )", "\n k(@@)", "\n k ( @@ ) , other = 7 ,"]), ["0", "in"])
        elif x == 1:
            s = g.emit_sm([dict(name="a", form="Bool", wrap="Req", ty="LitInt"), dict(name="k", form="NAOpt", wrap="Opt", ty=ty), dict(name=None, form="Value", wrap="Req", ty="LitInt")], **nm)
            E(s, inner, r.choice(["\n 1 , a , k ( @@ )", "\n 1 , k ( @@ ) , a"]), ["1", "in", "in", "in"])
        elif x == 2 and is_sm:
            s = g.emit_sm([dict(name="k", form="Value", wrap="Req", ty=ty), dict(name="other", form="Flag", wrap="Req", ty="LitInt")], **nm)
            E(s, inner, "\n other , k = @@", ["0"])
        elif x == 3 and is_sm:
            s = g.emit_sm([dict(name=None, form="Value", wrap="Req", ty=ty)], style=r.choice(["named", "tuple"]), name_mode="own")
            E(s, inner, "\n @@", ["0"])
        elif x == 4:
            s = g.emit_pt([[F("kw::alpha"), F(delims="("), F(ty), F("LitInt", delims=")")]], False)
            E(s, inner, "\n alpha ( @@ ) 5", ["2"])
        elif x == 5:
            s = g.emit_pt([[F("kw::alpha", peek=r.random() < 0.5), F(ty)], [F("kw::beta"), F("LitInt")]], True)
            E(s, inner, "\n alpha @@", ["1"])
        elif x == 6:
            s = g.emit_pt([[F("LitInt")], [F("Ident"), F(delims="["), F(delims="{"), F(ty)]], True)
            E(s, inner, "\n q [ { @@ } ]", ["3"])
        elif x == 7:
            s = g.emit_sm([dict(name="a", form="Value", wrap="Opt", ty="LitInt"), dict(name=None, form="NA", wrap="Rest", ty=ty)], **nm)
            E(s, inner, r.choice(["\n u1 ( @@ )", "\n a = 3, u1 ( @@ )"]), ["1", "u1", "in"])
        elif x == 8:
            s = g.emit_pt([[F(delims="(", macro=True), F(ty)]], False)
            E(s, inner, r.choice(["\n [ @@ ]", "\n ( @@ )", "\n { @@ }"]), ["1"])
        else:
            s = g.emit_pt([[F(ty)]], False)
            E(s, inner, "\n @@", ["0"])
        if s.get("embed"):
            made.append(s)
    # an inner type followed by further tokens at the same level
    for k in range(max(6, n // 6)):
        inner = r.choice(inner_sm + [x for x in made if x["kind"] == "sm"]) if r.random() < 0.75 else r.choice(inner_pt)
        ty = {"ref": inner["id"]}
        after = F(r.choice(["Token![;]", "Token![;]", "Token![=>]", "Token![,]", "Ident", "LitInt", "Token![|]", "Token![:]", "Token![.]", "kw::beta"]))
        x = r.randint(0, 3)
        if x == 0:
            g.emit_pt([[F("kw::alpha"), F(ty), after]], False)
        elif x == 1:
            g.emit_pt([[F(ty), after, F(ty)]], False)
        elif x == 2:
            g.emit_pt([[F("kw::alpha"), F(delims="("), F(ty), after]], False)
        else:
            g.emit_pt([[F("kw::alpha", peek=True), F(ty), after], [F("kw::alpha"), F("LitInt")]], True)
    # random nestings judged by the model
    allr = inner_sm + inner_pt + made[: n // 3]
    for _ in range(n // 2):
        g.sm_random(dict(refs=allr, ref_p=0.6, rare_p=0, named=(1, 4), rest_p=0.3))
    for _ in range(n // 2):
        g.pt_random(dict(refs=allr, ref_p=0.5, delim_p=0.2, term_p=0.2, enum_p=0.4, peek_p=0.1))
    recursive(g, r)
