"""C24: generated declarations with a verdict of the documented rules.

Every declaration is (text, verdict, label):  ok | ill | any ("any": only looked at for panics and error locations)
"""
import random
from shapes import KEYWORDS, HOSTILE, PLAIN, field_ident

LEAF = ["::syn::LitInt", "::syn::LitStr", "::syn::Ident", "::syn::Expr", "::syn::Type", "::syn::Path"]
SM_OK = [("{p}", "v"), ("Vec<{t}>", "l"), ("::structmeta::NameValue<{t}>", "n"), ("::structmeta::NameValue<Option<{t}>>", "n"), ("::structmeta::NameArgs<{t}>", "n"), ("::structmeta::NameArgs<Option<{t}>>", "n"),
         ("::structmeta::NameArgs<Vec<{t}>>", "n"), ("::structmeta::NameArgs<Option<Vec<{t}>>>", "n")]
FLAGS = ["bool", "::structmeta::Flag", "std::primitive::bool"]
HM = "::std::collections::HashMap<String, {t}>"
NOPARSE = ["u8", "Vec<Vec<{t}>>", "::structmeta::NameValue<bool>", "::structmeta::NameValue<::structmeta::Flag>", "::structmeta::NameArgs<bool>", "::structmeta::NameArgs<::structmeta::Flag>", "Vec<bool>",
           "::structmeta::NameValue<::structmeta::NameValue<{t}>>", "::structmeta::NameArgs<::structmeta::NameArgs<{t}>>", "::structmeta::NameValue<Vec<{t}>>", "Vec<::structmeta::NameValue<{t}>>", "String", "(u8, u8)",
           "[::syn::LitInt; 2]", "&'static str", "::std::collections::HashMap<::syn::Ident, {t}>", "::std::collections::BTreeMap<String, {t}>", "Option<bool>", "Option<::structmeta::Flag>", "Option<::std::collections::HashMap<String, {t}>>"]

def leaf(r):
    return r.choice(LEAF)

class SM:
    """a StructMeta declaration: list of fields dict(role, type, name, own, attrs)"""
    def __init__(self, r):
        self.r = r
        self.style = r.choice(["named", "named", "named", "tuple"])
        self.fields = []
        self.head = []
        self.item = "struct"
    def ok(self, big=False):
        """a well-formed declaration"""
        r = self.r
        names = list(dict.fromkeys([n for n in HOSTILE + PLAIN]))
        r.shuffle(names)
        pos = [("req", r.choice(LEAF))] * 0
        for _ in range(r.choice([0, 0, 1, 2])):
            pos.append(dict(role="req", type=leaf(r)))
        for _ in range(r.choice([0, 0, 1, 2])):
            pos.append(dict(role="opt", type=f"Option<{leaf(r)}>"))
        if r.random() < 0.3:
            pos.append(dict(role="var", type=f"Vec<{leaf(r)}>"))
        other = []
        for _ in range(r.choice([0, 1, 2, 3, 4]) if not big else r.randint(8, 20)):
            x = r.random()
            if x < 0.25:
                t = r.choice(FLAGS)
            else:
                t, _ = r.choice(SM_OK)
                t = t.format(p=leaf(r), t=leaf(r))
                if r.random() < 0.4:
                    t = f"Option<{t}>"
            other.append(dict(role="named", type=t, name=names.pop()))
        if r.random() < 0.3:
            t, _ = r.choice(SM_OK)
            other.append(dict(role="rest", type=HM.format(t=t.format(p=leaf(r), t=leaf(r)))))
        for f in other:
            pos.insert(r.randint(0, len(pos)), f)
        self.fields = pos
        return self
    def text(self):
        r = self.r
        taken = set()
        names = {f.get("name") for f in self.fields}
        out = []
        for i, f in enumerate(self.fields):
            attrs = list(f.get("attrs", []))
            own = None
            if self.style == "named":
                if f["role"] == "named":
                    own = f.get("own") or field_ident(f["name"])
                    plain = own.replace("r#", "") if own else None
                    if own is None or own in taken or f.get("override") or (r.random() < 0.15 and not f.get("own")):
                        own = f.get("own") or f"fld{i}"
                        while own in taken or own in names:
                            own += "_"
                        attrs.append(f'name = "{f["name"]}"')
                else:
                    own = f"p{i}"
                    while own in taken or own in names:
                        own += "_"
                    if f["role"] != "rest" or r.random() < 0.2:
                        attrs.append("unnamed")
                taken.add(own)
            elif f["role"] == "named":
                attrs.append(f'name = "{f["name"]}"')
            elif f["role"] != "rest" and r.random() < 0.15:
                attrs.append("unnamed")
            a = ""
            if attrs:
                if len(attrs) > 1 and r.random() < 0.4:
                    a = " ".join(f"#[struct_meta({x})]" for x in attrs) + " "
                else:
                    a = f"#[struct_meta({', '.join(attrs)}{r.choice(['', ','])})] "
            a += f.get("raw", "")
            if r.random() < 0.08:
                a = "/// doc\n    " + a
            out.append(f"    {a}pub {own}: {f['type']}," if self.style == "named" else f"    {a}pub {f['type']},")
        head = "".join(f"#[struct_meta({x})]\n" for x in self.head)
        nl = "\n"
        if self.item == "struct":
            if not self.fields:
                body = r.choice(["pub struct S;", "pub struct S {}", "pub struct S();"])
            else:
                body = f"pub struct S {{\n{nl.join(out)}\n}}" if self.style == "named" else f"pub struct S(\n{nl.join(out)}\n);"
        elif self.item == "enum":
            body = "pub enum S {\n    A {\n" + "\n".join(x.replace("pub ", "") for x in out) + "\n    },\n}" if self.style == "named" else "pub enum S {\n    A(\n" + "\n".join(x.replace("pub ", "") for x in out) + "\n    ),\n}"
        else:
            body = "pub union S {\n    pub a: u8,\n    pub b: u16,\n}"
        return f"#[derive(::structmeta::StructMeta)]\n{head}{body}"

def sm_ill(r):
    """a StructMeta declaration that breaks one rule"""
    d = SM(r).ok()
    fs = d.fields
    if not fs:
        fs.append(dict(role="named", type="bool", name="zz"))
    nm = lambda: "q" + str(r.randint(0, 999))
    k = r.choice(["dup", "dup", "dup", "rest2", "order", "order", "order", "flagpos", "argpos", "optvec", "noparse", "restflag", "restnamed", "restvalue", "item", "fieldarg", "fieldarg", "headarg", "filter", "filter2", "badvalue"])
    if k == "dup":
        named = [f for f in fs if f["role"] == "named"]
        if not named:
            fs.insert(r.randint(0, len(fs)), dict(role="named", type="bool", name=nm()))
            named = [f for f in fs if f["role"] == "named"]
        a = r.choice(named)
        # the second one may have another type, style and optionality; both may be overrides
        b = dict(role="named", type=r.choice(FLAGS + [leaf(r), f"Option<{leaf(r)}>", f"Vec<{leaf(r)}>", f"::structmeta::NameArgs<{leaf(r)}>"]), name=a["name"], override=True)
        fs.insert(r.randint(0, len(fs)), b)
        if r.random() < 0.3:
            a["override"] = True
    elif k == "rest2":
        have = [f for f in fs if f["role"] == "rest"]
        for _ in range(2 - len(have) if len(have) < 2 else 0):
            fs.insert(r.randint(0, len(fs)), dict(role="rest", type=HM.format(t=r.choice([leaf(r), f"::structmeta::NameArgs<{leaf(r)}>", f"Vec<{leaf(r)}>"]))))
    elif k == "order":
        req, opt, var = dict(role="req", type=leaf(r)), dict(role="opt", type=f"Option<{leaf(r)}>"), dict(role="var", type=f"Vec<{leaf(r)}>")
        fs[:] = [f for f in fs if f["role"] not in ("req", "opt", "var")]
        seq = r.choice([[opt, req], [var, req], [var, opt], [var, dict(var)], [dict(req), opt, req], [opt, dict(opt), req], [req, var, opt], [req, opt, var, dict(req)], [opt, var, dict(var)], [opt, req, var]])
        slots = sorted(r.choices(range(len(fs) + 1), k=len(seq)))
        for off, (s, f) in enumerate(zip(slots, seq)):
            fs.insert(s + off, dict(f))
    elif k == "flagpos":
        fs.insert(r.randint(0, len(fs)), dict(role="req", type=r.choice(FLAGS + ["Option<bool>", "Option<::structmeta::Flag>", "Vec<bool>", "Vec<::structmeta::Flag>"])))
        if fs[-1]["role"] != "req":
            pass
    elif k == "argpos":
        t = r.choice(["::structmeta::NameValue<{t}>", "::structmeta::NameArgs<{t}>", "::structmeta::NameArgs<Vec<{t}>>", "::structmeta::NameValue<Option<{t}>>", "::structmeta::NameArgs<Option<Vec<{t}>>>"]).format(t=leaf(r))
        fs.insert(r.randint(0, len(fs)), dict(role="req", type=r.choice([t, f"Option<{t}>", f"Vec<{t}>"])))
    elif k == "optvec":
        fs.append(dict(role="opt", type=f"Option<Vec<{leaf(r)}>>"))
    elif k == "noparse":
        t = r.choice(NOPARSE).format(t=leaf(r))
        f = dict(role="named", type=t, name=nm())
        fs.insert(r.randint(0, len(fs)), f)
    elif k == "restflag":
        fs[:] = [f for f in fs if f["role"] != "rest"]
        fs.append(dict(role="rest", type=HM.format(t=r.choice(FLAGS))))
    elif k == "restnamed":
        fs.append(dict(role="named", type=HM.format(t=leaf(r)), name=nm(), override=True))
    elif k == "restvalue":
        fs[:] = [f for f in fs if f["role"] != "rest"]
        fs.append(dict(role="rest", type=HM.format(t=r.choice(["u8", "Option<bool>", "String", "Vec<Vec<::syn::LitInt>>", "::structmeta::NameValue<bool>", "::std::collections::HashMap<String, ::syn::LitInt>"]))))
    elif k == "item":
        d.item = r.choice(["enum", "union"])
    elif k == "fieldarg":
        f = r.choice(fs)
        f["raw"] = r.choice(['#[struct_meta(foo)] ', '#[struct_meta(name)] ', '#[struct_meta(name = 1)] ', '#[struct_meta(name = b"x")] ', '#[struct_meta(unnamed = true)] ', '#[struct_meta(unnamed(1))] ', '#[struct_meta(name("x"))] ',
                             '#[struct_meta(name = "zz" unnamed)] ', '#[struct_meta(,)] ', '#[struct_meta(unnamed,, unnamed)] ', '#[struct_meta(Unnamed)] ', '#[struct_meta(names = "x")] ', '#[struct_meta(name_filter = "snake_case")] ', '#[struct_meta(dump)] ',
                             '#[struct_meta(name = x)] ', '#[struct_meta(name = "x" "y")] ', '#[struct_meta("x")] ', '#[struct_meta(rest)] ', '#[struct_meta(optional)] ', '#[struct_meta(r#unnamed)] ', '#[struct_meta(name == "x")] ', '#[struct_meta] ',
                             '#[struct_meta = "x"] ', "#[struct_meta(name = 'x')] ", '#[struct_meta(unnamed; unnamed)] ', '#[struct_meta(unnamed unnamed)] ', '#[struct_meta(default)] ', '#[struct_meta(unnamed, foo)] '])
    elif k == "headarg":
        d.head.append(r.choice(["unnamed", 'name = "x"', "foo", "name_filter", "name_filter()", "dumps", "Dump = 1", '"snake_case"', "name_filter: \"snake_case\"", "name_filter = \"snake_case\" = 1", ",", "rename_all = \"x\"", "default", "name_filter == \"snake_case\""]))
    elif k == "filter":
        d.head.append("name_filter = " + r.choice(['"camel_case"', '""', '"Snake_case"', '"snake-case"', '" snake_case"', "snake_case", "1", "'s'", '"snake_case_"', '"SNAKE_CASE"', 'b"snake_case"', '"kebab-case"', '"none"', '"snake"', '"case"', '"snakecase"']))
    elif k == "filter2":
        if r.random() < 0.5:
            d.head.append('name_filter = "snake_case", name_filter = "snake_case"')
        else:
            d.head += ['name_filter = "snake_case"'] * 2
    elif k == "badvalue":
        f = dict(role="req", type=r.choice(["u8", "String", "(u8,)", "::structmeta::Flag", "std::primitive::bool"]))
        fs.insert(0, f)
    return d.text(), "ill", "StructMeta/" + k

def sm_ok(r):
    d = SM(r).ok(big=r.random() < 0.08)
    if r.random() < 0.15:
        d.head.append(r.choice(['name_filter = "snake_case"', 'name_filter = "snake_case",', ""]))
    if d.fields and r.random() < 0.1:
        r.choice(d.fields)["raw"] = r.choice(["#[struct_meta()] ", "#[doc = \"x\"] ", "#[allow(dead_code)] ", "#[cfg(all())] "])
    return d.text(), "ok", "StructMeta/well-formed"

# ------------------------------------------------------------------ Parse and ToTokens
DELIM = {"(": "Paren", "[": "Bracket", "{": "Brace"}
CL = {"(": ")", "[": "]", "{": "}"}
PEEK = ["::syn::LitInt", "::syn::Ident", "::syn::LitStr", "::syn::Token![=]", "::syn::Token![fn]", "::syn::Token![->]", "::syn::Lifetime"]

class PT:
    def __init__(self, r, enum, derives):
        self.r, self.enum, self.derives = r, enum, derives
        self.variants = []
        self.head = []
        self.union = False
    def fields(self):
        """well-formed fields: dict(type, sym=[(string literal)], parse=[...])"""
        r = self.r
        out, stack, pend = [], [], ""
        for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5])):
            while stack and r.random() < 0.3:
                pend += CL[stack.pop()]
            if r.random() < 0.35 and len(stack) < 4:
                c = r.choice("([{")
                stack.append(c)
                sym = pend + c
                if r.random() < 0.1:
                    sym += CL[stack.pop()]
                out.append(dict(type="::syn::MacroDelimiter" if r.random() < 0.25 else "::syn::token::" + DELIM[c], sym=sym, open=c, parse=[]))
            else:
                f = dict(type=r.choice(PEEK), sym=pend, parse=[])
                if "Parse" in self.derives:
                    x = r.random()
                    if x < 0.08:
                        f.update(type="::syn::Ident", parse=["any"])
                    elif x < 0.16:
                        f.update(type="::syn::punctuated::Punctuated<::syn::LitInt, ::syn::Token![,]>", parse=["terminated"], term=True)
                    elif x < 0.2:
                        f.update(type="::syn::punctuated::Punctuated<::syn::Ident, ::syn::Token![,]>", parse=["terminated", "any"], term=True)
                out.append(f)
            pend = ""
        return out
    def roots(self, fs):
        """indices of the fields at the outer level (where `peek` may stand)"""
        out, depth = [], 0
        for i, f in enumerate(fs):
            root = depth == 0
            opened = False
            for c in f["sym"]:
                if c in "([{":
                    depth += 1; opened = True
                elif c in ")]}":
                    depth -= 1
                    if depth == 0 and not opened:
                        root = True
            if root:
                out.append(i)
        return out
    def ok(self):
        r = self.r
        n = r.choice([1, 2, 3, 4]) if self.enum else 1
        self.variants = [self.fields() for _ in range(n)]
        if self.enum and "Parse" in self.derives:
            for v in self.variants:
                if r.random() < 0.4:
                    k, lim = 0, r.choice([1, 2, 3, 3])
                    for i in self.roots(v):
                        if k == lim or v[i].get("term") or v[i]["type"].endswith("MacroDelimiter"):
                            break
                        v[i]["parse"].append("peek")
                        k += 1
        return self
    def text(self):
        r = self.r
        parts = []
        for vi, v in enumerate(self.variants or [[]]):
            named = r.random() < 0.5
            rows = []
            for i, f in enumerate(v):
                attrs = []
                if f["sym"]:
                    s = f["sym"]
                    x = r.random()
                    if f.get("whole") or len(s) < 2 or x < 0.5:
                        attrs.append(f'#[to_tokens("{s}")]')
                    elif x < 0.75:
                        attrs.append("#[to_tokens(" + ", ".join(f'"{c}"' for c in s) + r.choice(["", ","]) + ")]")
                    else:
                        attrs += [f'#[to_tokens("{c}")]' for c in s]
                if f["parse"]:
                    ps = list(f["parse"]); r.shuffle(ps)
                    if r.random() < 0.3 and len(ps) > 1:
                        attrs += [f"#[parse({p})]" for p in ps]
                    else:
                        attrs.append(f"#[parse({', '.join(ps)}{r.choice(['', ','])})]")
                attrs += f.get("raw", [])
                if r.random() < 0.4 and len([a for a in attrs if "to_tokens" in a]) < 2:
                    r.shuffle(attrs)
                a = "".join(x + " " for x in attrs)
                pub = "" if self.enum else "pub "
                rows.append(f"        {a}{pub}f{i}: {f['type']}" if named else f"        {a}{pub}{f['type']}")
            nl = ",\n"
            if not v and r.random() < 0.5:
                parts.append(("", "unit"))
            elif named:
                parts.append((" {\n" + nl.join(rows) + "\n    }", "named"))
            else:
                parts.append(("(\n" + nl.join(rows) + "\n    )", "tuple"))
        head = "".join(h + "\n" for h in self.head)
        hd = "#[derive(" + ", ".join("::structmeta::" + x for x in self.derives) + f")]\n{head}"
        if self.union:
            return hd + "pub union S {\n    pub a: u8,\n    pub b: u16,\n}"
        if self.enum:
            return hd + "pub enum S {\n" + "".join(f"    V{i}{b},\n" for i, (b, _) in enumerate(parts)) + "}"
        b, st = parts[0]
        return hd + "pub struct S" + b + ("" if st == "named" else ";")

def pt_new(r, parse=False):
    der = r.choice([["Parse"], ["ToTokens"], ["Parse", "ToTokens"], ["ToTokens", "Parse"]])
    if parse:
        der = r.choice([["Parse"], ["Parse"], ["Parse", "ToTokens"]])
    return PT(r, r.random() < 0.5, der)

def pt_ok(r):
    d = pt_new(r).ok()
    if r.random() < 0.06:
        d.enum, d.variants = True, []
        d.variants = None
        return "#[derive(" + ", ".join("::structmeta::" + x for x in d.derives) + ")]\npub enum S {}", "ok", "+".join(d.derives) + "/no variants"
    return d.text(), "ok", "+".join(d.derives) + "/well-formed"

def pt_ill(r):
    k = r.choice(["close", "close", "mismatch", "mismatch", "invalid", "invalid", "wrongtype", "notdelim", "peek_in", "peek_in", "peek_after", "peek_after", "peek4", "parg", "parg", "targ", "phead", "thead", "union", "noparse"])
    d = pt_new(r, parse=k.startswith("p")).ok()
    if k.startswith("peek"):
        d.enum = True
        d = PT(r, True, d.derives).ok()
    v = r.choice(d.variants)
    plain = lambda: dict(type=r.choice(PEEK), sym="", parse=[])
    def depth_at(i):
        st = []
        for f in v[:i]:
            for c in f["sym"]:
                st.append(c) if c in "([{" else st.pop()
        return st
    if k == "close":
        # a closing symbol with nothing open
        i = r.randint(0, len(v))
        st = depth_at(i)
        sym = "".join(CL[c] for c in reversed(st)) + r.choice(")]}")
        tail = v[i:]
        v.insert(i, dict(plain(), sym=sym))
        for f in v[i + 1:]:
            f["sym"] = "".join(c for c in f["sym"] if False) if not f.get("open") else f["open"]
    elif k == "mismatch":
        i = r.randint(0, len(v))
        v[i:] = []
        st = depth_at(i)
        if not st:
            c = r.choice("([{")
            v.append(dict(type="::syn::MacroDelimiter" if r.random() < 0.4 else "::syn::token::" + DELIM[c], sym=c, open=c, parse=[]))
            st = [c]
        bad = r.choice([x for x in "([{" if x != st[-1]])
        # the field between keeps the delimiter type right; only the closing symbol is wrong
        v.append(dict(plain(), sym=r.choice(["", ""]) + CL[bad]))
        if r.random() < 0.4:
            for f in v:
                if f.get("open"):
                    f["type"] = "::syn::token::" + DELIM[f["open"]]
        if r.random() < 0.5:
            v.append(plain())
    elif k == "invalid":
        i = r.randint(0, len(v))
        v.insert(i, dict(plain(), sym=r.choice(["<", ">", " ", "x", "( ", " )", "|", "（", "()x", "\\n", ",", "<>", "ab", "\\u{5b}\\u{20}", "/", "()-", "\\0"]), whole=True))
        if v[i]["sym"].startswith(("(", "\\u")):
            v[i]["type"] = "::syn::token::Paren" if v[i]["sym"][0] == "(" else "::syn::token::Bracket"
    elif k == "wrongtype":
        c = r.choice("([{")
        o = r.choice([x for x in "([{" if x != c])
        v.append(dict(type="::syn::token::" + DELIM[o], sym=c, open=c, parse=[]))
        if r.random() < 0.5:
            v.append(plain())
    elif k == "notdelim":
        c = r.choice("([{")
        v.append(dict(type=r.choice(["::syn::LitInt", "::syn::Ident", "::syn::Token![=]", "Option<::syn::token::Paren>", "Vec<::syn::token::Brace>"]), sym=c, open=c, parse=[]))
    elif k == "peek_in":
        for f in v:
            if "peek" in f["parse"]:
                f["parse"].remove("peek")
        v[:] = []
        c = r.choice("([{")
        if r.random() < 0.4:
            v.append(dict(plain(), parse=["peek"]))
        v.append(dict(type="::syn::token::" + DELIM[c], sym=c, open=c, parse=["peek"] if r.random() < 0.6 else []))
        for _ in range(r.choice([0, 0, 1])):
            v.append(plain())
        v.append(dict(plain(), parse=["peek"]))
        if r.random() < 0.4:
            v.append(dict(plain(), sym=CL[c]))
    elif k == "peek_after":
        v[:] = []
        for _ in range(r.choice([0, 0, 1])):
            v.append(dict(plain(), parse=["peek"]))
        x = r.random()
        if x < 0.6:
            v.append(plain())
        else:
            c = r.choice("([{")
            v.append(dict(type="::syn::token::" + DELIM[c], sym=c, open=c, parse=[]))
            if r.random() < 0.5:
                v.append(plain())
            v.append(dict(plain(), sym=CL[c], parse=["peek"]))
        if x < 0.6 or r.random() < 0.3:
            v.append(dict(plain(), parse=["peek"]))
        if r.random() < 0.3:
            v.append(plain())
    elif k == "peek4":
        v[:] = [dict(plain(), parse=["peek"]) for _ in range(r.choice([4, 4, 5]))]
        if r.random() < 0.4:
            v.append(plain())
        if r.random() < 0.3:
            v[r.randint(0, 3)] = dict(type="::syn::Ident", sym="", parse=["peek", "any"])
    elif k == "parg":
        if not v:
            v.append(plain())
        r.choice(v).setdefault("raw", []).append(r.choice(["#[parse(foo)]", "#[parse(any = 1)]", '#[parse("peek")]', "#[parse(peek peek)]", "#[parse]", '#[parse = "any"]', "#[parse(Any)]", "#[parse(terminated())]", "#[parse(,)]", "#[parse(any,, any)]",
                                                           "#[parse(peeks)]", "#[parse(terminate)]", "#[parse(r#any)]", "#[parse(any; peek)]", "#[parse(skip)]", "#[parse(1)]", "#[parse(())]", "#[parse(any(peek))]", "#[parse(default)]"]))
    elif k == "targ":
        if not v:
            v.append(plain())
        r.choice(v).setdefault("raw", []).append(r.choice(["#[to_tokens(foo)]", "#[to_tokens('(')]", '#[to_tokens(b"(")]', '#[to_tokens("" "")]', "#[to_tokens]", '#[to_tokens = "("]', "#[to_tokens(,)]", "#[to_tokens(1)]", '#[to_tokens("",, "")]', "#[to_tokens(dumps)]",
                                                           "#[to_tokens((\"\"))]", "#[to_tokens(skip)]", "#[to_tokens(any)]", '#[to_tokens(c"(")]', '#[to_tokens("" = 1)]', "#[to_tokens(xxx = 123)]"]))
    elif k == "phead":
        d.head.append(r.choice(["#[parse(foo)]", "#[parse]", "#[parse(dumps)]", '#[parse("x")]', "#[parse(dump dump)]", "#[parse = 1]", "#[parse(Dump)]", "#[parse(dump = 1)]"]).replace("dump dump", "any any"))
        if "dump = 1" in d.head[-1]:
            d.head[-1] = "#[parse(any = 1)]"
    elif k == "thead":
        if "ToTokens" not in d.derives:
            d.derives = ["ToTokens"] + [x for x in d.derives if any(f["parse"] for vv in d.variants for f in vv)]
        d.head.append(r.choice(["#[to_tokens(foo)]", "#[to_tokens]", "#[to_tokens(dumps)]", "#[to_tokens(any)]", "#[to_tokens(1)]", "#[to_tokens = 1]", "#[to_tokens(Dump)]"]))
    elif k == "union":
        d.union = True
    elif k == "noparse":
        v.append(dict(type=r.choice(["NoImpl"]), sym="", parse=[]))
        return d.text() + "\npub struct NoImpl;", "ill", "+".join(d.derives) + "/" + k
    return d.text(), "ill", "+".join(d.derives) + "/" + k

# ------------------------------------------------------------------ anything
def soup(r):
    """a declaration of arbitrary structure with arbitrary helper attributes: only panics are looked for"""
    toks = ["peek", "any", "terminated", "name", "unnamed", "name_filter", '"snake_case"', '"("', '")"', '"["', '"]"', '"{"', '"}"', '"(("', '"()"', '")("', '""', '"x"', "=", ",", ",", "1", "foo", "(a)", "[x = 1]", "{}", "'a'", "b\"x\"", "-1", "::", "r#any", "é", "'l", "..", '"\\u{0}"', 'r"("', '"\\""']
    def args():
        return " ".join(r.choice(toks) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))).replace("dump", "x")
    def attr(names):
        n = r.choice(names)
        x = r.random()
        if x < 0.06:
            return f"#[{n}] "
        if x < 0.1:
            return f'#[{n} = "x"] '
        o, c = r.choice(["()", "()", "()", "[]", "{}"])
        return f"#[{n}{o}{args()}{c}] "
    def plausible(names):
        n = r.choice(names)
        if n == "to_tokens":
            return '#[to_tokens("' + "".join(r.choice("()[]{}") for _ in range(r.choice([1, 1, 2, 3]))) + '")] '
        if n == "parse":
            return "#[parse(" + ", ".join(r.choice(["any", "peek", "terminated"]) for _ in range(r.choice([1, 2]))) + ")] "
        return "#[struct_meta(" + r.choice(['name = "a"', "unnamed", 'name = ""', 'name = "a b"', 'name = "\\u{1F600}"', 'name = "a", unnamed', "unnamed, unnamed", 'name = "r#fn"', 'name = "self"', 'name = "' + "x" * 200 + '"']) + ")] "
    def ty(d=0):
        x = r.random()
        if d > 3 or x < 0.35:
            return r.choice(["u8", "bool", "::structmeta::Flag", "::syn::LitInt", "::syn::Ident", "()", "!" if False else "(u8,)", "[u8; 3]", "*const u8", "fn(u8) -> u8", "dyn ::std::fmt::Debug", "&'static str", "::syn::MacroDelimiter", "::syn::token::Paren", "String", "T", "Self_", "str", "<u8 as Tr>::X", "impl_::X", "Box<dyn Fn(u8)>"])
        w = r.choice(["Option<{}>", "Vec<{}>", "::structmeta::NameValue<{}>", "::structmeta::NameArgs<{}>", "::std::collections::HashMap<String, {}>", "Box<{}>", "({}, {})", "Option<{}, u8>", "Vec<'a, {}>", "HashMap<{}, {}>", "Option", "Vec<{{ 1 }}>", "::std::option::Option<{}>", "a::b::Option<{}>", "({})",
                      "Option<T = {}>", "Option::<{}>", "Option<&{}>", "Fn({}) -> {}" if False else "std::vec<u8>::Vec<{}>"])
        n = w.count("{}")
        return w.replace("{{", "{").replace("}}", "}") if n == 0 else w.format(*[ty(d + 1) for _ in range(n)])
    der = r.choice([["StructMeta"], ["StructMeta"], ["Parse"], ["ToTokens"], ["Parse", "ToTokens"], ["StructMeta", "ToTokens"]])
    names = []
    for x in der:
        names += {"StructMeta": ["struct_meta"], "Parse": ["parse", "to_tokens"], "ToTokens": ["to_tokens"]}[x]
    def anyattr():
        return "".join(plausible(names) if r.random() < 0.7 else attr(names) for _ in range(r.choice([0, 0, 1, 1, 2])))
    idents = ["a", "b", "c", "r#type", "r#fn", "_a", "_0", "Self_", "é", "名", "input", "value", "A", "x1"]
    def fields(pub):
        ids = list(idents); r.shuffle(ids)
        n = r.choice([0, 1, 2, 3, 5, 9])
        if r.random() < 0.5:
            return "{ " + ", ".join(f"{anyattr()}{ids[i]}: {ty()}" for i in range(n)) + " }", True
        return "(" + ", ".join(f"{anyattr()}{ty()}" for i in range(n)) + ")", False
    g = r.choice(["", "", "", "<T>", "<'a, T: Copy = u8>", "<const N: usize>", "<'a, 'b: 'a, T, U>", "<T: ?Sized>", "<>", "<T,>"])
    wh = r.choice(["", "", "", " where T: Copy", " where u8: Copy,", " where", " where for<'x> T: Fn(&'x u8)"])
    hd = "#[derive(" + ", ".join("::structmeta::" + x for x in der) + ")]\n"
    top = "".join((attr(names) + "\n") if r.random() < 0.15 else "" for _ in range(2))
    k = r.random()
    if k < 0.5:
        f, nm = fields(True)
        t = f"pub struct S{g}{wh} {f}" if nm else f"pub struct S{g}{f}{wh};"
        if r.random() < 0.06:
            t = f"pub struct S{g}{wh};"
    elif k < 0.9:
        vs = []
        for i in range(r.choice([0, 1, 2, 3, 6])):
            a = "".join(attr(names) if r.random() < 0.1 else "" for _ in range(1))
            x = r.random()
            if x < 0.2:
                vs.append(f"{a}V{i}" + r.choice(["", " = 3", " = { 1 + 1 }"]))
            else:
                f, nm = fields(False)
                vs.append(f"{a}V{i}{' ' if nm else ''}{f}")
        t = f"pub enum S{g}{wh} {{ {', '.join(vs)} }}"
    else:
        t = f"pub union S{g}{wh} {{ {anyattr()}a: {ty()}, b: u8 }}"
    return hd + top + t, "any", "+".join(der) + "/arbitrary"

FIXED = [
    # the examples of the documentation's rules, one by one: (text, verdict)
    ("#[derive(::structmeta::StructMeta)]\npub enum S { A }", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub enum S {}", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub union S { a: u8 }", "ill"),
    ("#[derive(::structmeta::Parse)]\npub union S { a: u8 }", "ill"),
    ("#[derive(::structmeta::ToTokens)]\npub union S { a: u8 }", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    r#type: bool,\n    #[struct_meta(name = \"type\")]\n    b: bool,\n}", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(\n    #[struct_meta(name = \"a\")] bool,\n    #[struct_meta(name = \"a\")] ::syn::LitInt,\n);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    #[struct_meta(name = \"b\")]\n    a: bool,\n    #[struct_meta(name = \"a\")]\n    b: bool,\n}", "ok"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    #[struct_meta(unnamed)]\n    a: ::syn::LitInt,\n    #[struct_meta(name = \"a\")]\n    b: bool,\n}", "ok"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    a: ::std::collections::HashMap<String, ::syn::LitInt>,\n    #[struct_meta(name = \"a\")]\n    b: bool,\n}", "ok"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    a: bool,\n    A: bool,\n    a_: bool,\n    r#fn: bool,\n    fn_: bool,\n}", "ok"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    a: ::std::collections::HashMap<String, ::syn::LitInt>,\n    b: ::std::collections::HashMap<String, ::syn::LitInt>,\n}", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(Option<::syn::LitInt>, ::syn::LitInt);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(Vec<::syn::LitInt>, Option<::syn::LitInt>);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(Vec<::syn::LitInt>, Vec<::syn::LitStr>);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(bool);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(::structmeta::Flag);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S(Option<Vec<::syn::LitInt>>);", "ill"),
    ("#[derive(::structmeta::StructMeta)]\npub struct S {\n    rest: ::std::collections::HashMap<String, bool>,\n}", "ill"),
    ("#[derive(::structmeta::Parse)]\npub enum S {\n    A(#[parse(peek)] ::syn::LitInt, #[parse(peek)] ::syn::LitInt, #[parse(peek)] ::syn::LitInt),\n    B(#[parse(peek)] ::syn::LitStr),\n}", "ok"),
    ("#[derive(::structmeta::Parse)]\npub enum S {\n    A(#[parse(peek)] ::syn::LitInt, #[parse(peek)] ::syn::LitInt, #[parse(peek)] ::syn::LitInt, #[parse(peek)] ::syn::LitInt),\n}", "ill"),
    ("#[derive(::structmeta::Parse)]\npub enum S {\n    A {\n        #[parse(peek)]\n        #[to_tokens(\"{\")]\n        a: ::syn::token::Brace,\n        b: ::syn::LitInt,\n        #[to_tokens(\"}\")]\n        #[parse(peek)]\n        d: ::syn::LitInt,\n    },\n}", "ok"),
    ("#[derive(::structmeta::Parse)]\npub struct S(#[to_tokens(\")\")] ::syn::LitInt);", "ill"),
    ("#[derive(::structmeta::ToTokens)]\npub struct S(#[to_tokens(\")\")] ::syn::LitInt);", "ill"),
    ("#[derive(::structmeta::Parse)]\npub struct S(#[to_tokens(\"(\")] ::syn::token::Paren, #[to_tokens(\"]\")] ::syn::LitInt);", "ill"),
    ("#[derive(::structmeta::ToTokens)]\npub struct S(#[to_tokens(\"(\")] ::syn::token::Paren, #[to_tokens(\"]\")] ::syn::LitInt);", "ill"),
    ("#[derive(::structmeta::ToTokens)]\npub struct S(#[to_tokens(\"(\")] ::syn::MacroDelimiter, #[to_tokens(\"]\")] ::syn::LitInt);", "ill"),
    ("#[derive(::structmeta::Parse)]\npub struct S(#[to_tokens(\"(\")] ::syn::MacroDelimiter, #[to_tokens(\"]\")] ::syn::LitInt);", "ill"),
]

def generate(seed, n):
    r = random.Random(f"C24/{seed}")
    out = [(t, v, "documentation") for t, v in FIXED]
    for _ in range(n):
        x = r.random()
        f = sm_ill if x < 0.3 else pt_ill if x < 0.6 else sm_ok if x < 0.73 else pt_ok if x < 0.85 else soup
        out.append(f(r))
    return out
