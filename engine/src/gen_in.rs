//! Input generators: conforming argument lists / token sequences and mutations of them.
use crate::leaf::*;
use crate::rng::Rng;
use crate::shape::*;
use crate::tok::*;

#[derive(Clone, Debug, PartialEq)]
pub enum AKind {
    Pos(usize),
    Named(usize, Style),
    Rest(String, Style),
    Other,
}
#[derive(Clone, Debug)]
pub struct Arg {
    pub toks: Vec<Tok>,
    pub kind: AKind,
}
#[derive(Clone, Debug)]
pub struct List {
    pub args: Vec<Arg>,
    pub trailing: bool,
}
impl List {
    pub fn toks(&self) -> Vec<Tok> {
        let mut v = vec![];
        for (i, a) in self.args.iter().enumerate() {
            if i > 0 {
                v.push(p(","));
            }
            v.extend(a.toks.iter().cloned());
        }
        if self.trailing && !self.args.is_empty() {
            v.push(p(","));
        }
        v
    }
    pub fn first_named(&self) -> usize {
        self.args.iter().position(|a| matches!(a.kind, AKind::Named(..) | AKind::Rest(..))).unwrap_or(self.args.len())
    }
}
pub fn layout(r: &mut Rng) -> Layout {
    match r.below(4) {
        0 => Layout::Wide,
        1 => Layout::Tight,
        _ => Layout::Random(r.next()),
    }
}
pub fn gen_ty(t: &Table, ty: &Ty, r: &mut Rng, d: usize) -> Vec<Tok> {
    match ty {
        Ty::Leaf(k) => gen_leaf(k, r),
        Ty::Arr(n, ty) => (0..*n).flat_map(|_| gen_ty(t, ty, r, d)).collect(),
        Ty::Ref(id) => gen_shape(t, t.get(id), r, d + 1),
    }
}
/// for recursive types: `inner` wrapped in many levels
pub fn deepen(s: &Shape, inner: Vec<Tok>, r: &mut Rng) -> Vec<Tok> {
    fn put(t: &[Tok], v: &[Tok]) -> Vec<Tok> {
        let mut out = vec![];
        for x in t {
            match x {
                Tok::Id(n) if n == "HOLE" => out.extend(v.iter().cloned()),
                Tok::G(c, w) => out.push(Tok::G(*c, put(w, v))),
                x => out.push(x.clone()),
            }
        }
        out
    }
    let n = r.range(2, *r.clone().pick(&[4, 10, 20, 40]));
    let mut v = inner;
    for _ in 0..n {
        v = put(r.pick(&s.deep), &v);
    }
    v
}
pub fn gen_shape(t: &Table, s: &Shape, r: &mut Rng, d: usize) -> Vec<Tok> {
    match &s.def {
        Def::Sm(x) => gen_list(t, x, r, d).toks(),
        Def::Pt(x) => gen_pt(t, x, r, d, None),
    }
}
fn few(r: &mut Rng, d: usize) -> usize {
    if d > 3 {
        return 0;
    }
    if d == 0 && r.below(500) == 0 {
        // long enough for counters, masks and buffers of fixed size
        return *r.pick(&[33, 65, 70, 129, 257, 300, 520]);
    }
    match r.below(20) {
        0..=5 => 1,
        6..=10 => 2,
        11..=13 => 3,
        14 => 5,
        15 => r.range(4, 12),
        _ => 0,
    }
}
/// tokens of one named argument in the given style
pub fn gen_named(t: &Table, f: &SmField, name: &str, st: Style, r: &mut Rng, d: usize) -> Vec<Tok> {
    let mut v = vec![id(name)];
    match st {
        Style::Flag => {}
        Style::Value => {
            v.push(p("="));
            v.extend(gen_ty(t, &f.ty, r, d));
        }
        Style::Args => {
            let inner = if matches!(f.form, Form::List | Form::NAList | Form::NAOptList) {
                let n = few(r, d);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        v.push(p(","));
                    }
                    v.extend(gen_ty(t, &f.ty, r, d));
                }
                if n > 0 && r.pct(25) {
                    v.push(p(","));
                }
                v
            } else {
                gen_ty(t, &f.ty, r, d)
            };
            v.push(paren(inner));
        }
    }
    v
}
pub fn admitted(f: &SmField) -> Vec<Style> {
    STYLES.iter().copied().filter(|s| f.admits(*s)).collect()
}
/// a value of some shape for an argument whose field is unknown
pub fn any_value(st: Style, r: &mut Rng) -> Vec<Tok> {
    match st {
        Style::Flag => vec![],
        Style::Value => {
            let k = *r.pick(&["LitInt", "LitStr", "Expr", "Ident", "Type", "Path"]);
            let mut v = vec![p("=")];
            v.extend(gen_leaf(k, r));
            v
        }
        Style::Args => {
            let k = *r.pick(&["LitInt", "LitStr", "Expr", "Ident"]);
            let mut v = vec![];
            for i in 0..r.below(4) {
                if i > 0 {
                    v.push(p(","));
                }
                v.extend(gen_leaf(k, r));
            }
            vec![paren(v)]
        }
    }
}
/// spellings close to `s`
pub fn near(s: &str, r: &mut Rng) -> String {
    let base: Vec<char> = s.trim_start_matches("r#").chars().collect();
    for _ in 0..20 {
        let mut c = base.clone();
        let n = c.len();
        match r.below(10) {
            0 => c.insert(r.below(n + 1), *r.pick(&['a', 'b', 'x', '_', 's', 'é'])),
            1 if n > 1 => {
                c.remove(r.below(n));
            }
            2 => {
                let i = r.below(n);
                c[i] = *r.pick(&['a', 'b', 'x', '_', 'z', 'é'])
            }
            3 if n > 1 => {
                let i = r.below(n - 1);
                c.swap(i, i + 1)
            }
            4 => c = c.iter().flat_map(|x| x.to_uppercase()).collect(),
            5 => c = c.iter().flat_map(|x| x.to_lowercase()).collect(),
            6 => {
                let i = r.below(n);
                c[i] = if c[i].is_uppercase() { c[i].to_lowercase().next().unwrap() } else { c[i].to_uppercase().next().unwrap() }
            }
            7 => c.push('_'),
            8 => {
                // two edits
                c.insert(0, 'q');
                c.push('s');
            }
            _ => {
                let d = c.clone();
                c.extend(d)
            }
        }
        let x: String = c.into_iter().collect();
        if is_ident(&x) && x != s {
            return x;
        }
    }
    format!("{s}_q")
}
/// names of unusual length and script
pub fn odd_name(r: &mut Rng) -> String {
    loop {
        let n = *r.pick(&[1, 2, 3, 8, 16, 31, 32, 33, 64, 100, 128, 255, 300]);
        let n = if r.pct(50) { r.range(1, n) } else { n };
        let set: &[char] = r.pick::<&[char]>(&[&['a'], &['é'], &['名'], &['𝒳'], &['a', 'é', '名', '𝒳', '_', '1'], &['_'], &['x', 'X'], &['a', 'b', 'c', 'é']]);
        let mut x: String = if r.pct(50) { r.pick(&["a", "_", "xy", "n", "r", "aé"]).to_string() } else { String::new() };
        for _ in 0..n {
            x.push(*r.pick(set));
        }
        if is_ident(&x) {
            return x;
        }
    }
}
pub fn is_ident(s: &str) -> bool {
    let mut it = s.strip_prefix("r#").unwrap_or(s).chars();
    match it.next() {
        Some(c) if c == '_' || c.is_alphabetic() => {}
        _ => return false,
    }
    it.all(|c| c == '_' || c.is_alphanumeric()) && s != "__NG" && syn_ok(s)
}
fn syn_ok(s: &str) -> bool {
    // one identifier for the lexer
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(ts) => {
            let v: Vec<_> = ts.into_iter().collect();
            v.len() == 1 && matches!(&v[0], proc_macro2::TokenTree::Ident(_))
        }
        Err(_) => false,
    }
}
pub fn rest_name(s: &Sm, st: Style, r: &mut Rng) -> String {
    for _ in 0..20 {
        let x = match r.below(10) {
            0 | 1 => {
                let named = s.named();
                if named.is_empty() {
                    continue;
                }
                let n = s.fields[*r.pick(&named)].name.clone().unwrap();
                if r.pct(60) { n } else { near(&n, r) }
            }
            2 => r.pick(KEYWORDS).to_string(),
            3 => format!("n{}", r.below(1000)),
            4 => r.pick(&["r#type", "r#abc"]).to_string(),
            5 if r.pct(20) => odd_name(r),
            _ => r.pick(IDENTS).to_string(),
        };
        // declared in that style: not for rest
        if s.fields.iter().any(|f| f.name.as_deref() == Some(&x) && f.admits(st)) {
            continue;
        }
        if s.filter && !x.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') {
            continue;
        }
        return x;
    }
    format!("u{}", r.below(100000))
}
pub fn gen_list(t: &Table, s: &Sm, r: &mut Rng, d: usize) -> List {
    let mut args = vec![];
    for i in s.required_pos() {
        args.push(Arg { toks: gen_ty(t, &s.fields[i].ty, r, d), kind: AKind::Pos(i) });
    }
    let opt = s.optional_pos();
    let mut n = r.below(opt.len() + 1);
    if r.pct(30) {
        n = opt.len();
    }
    for &i in &opt[..n] {
        args.push(Arg { toks: pos_value(t, s, i, r, d), kind: AKind::Pos(i) });
    }
    if n == opt.len() {
        if let Some(v) = s.variadic() {
            for _ in 0..few(r, d) {
                args.push(Arg { toks: pos_value(t, s, v, r, d), kind: AKind::Pos(v) });
            }
        }
    }
    let mut named = vec![];
    let p_opt = *r.pick(&[0, 30, 60, 100]);
    for i in s.named() {
        let f = &s.fields[i];
        if f.required() || r.pct(if d > 2 { 15 } else { p_opt }) {
            let st = *r.pick(&admitted(f));
            let name = f.name.clone().unwrap();
            named.push(Arg { toks: gen_named(t, f, &name, st, r, d), kind: AKind::Named(i, st) });
        }
    }
    if let Some(ri) = s.rest() {
        let f = &s.fields[ri];
        let mut seen = std::collections::HashSet::new();
        let n = few(r, d);
        for k in 0..n {
            let st = *r.pick(&admitted(f));
            let name = if n > 32 && r.pct(90) { format!("n{k}") } else { rest_name(s, st, r) };
            if seen.insert(name.clone()) {
                named.push(Arg { toks: gen_named(t, f, &name, st, r, d), kind: AKind::Rest(name, st) });
            }
        }
    }
    if r.pct(85) {
        r.shuffle(&mut named);
    }
    args.extend(named);
    List { args, trailing: r.pct(30) }
}
/// a positional value, preferably one that is not read as a named argument
fn pos_value(t: &Table, s: &Sm, i: usize, r: &mut Rng, d: usize) -> Vec<Tok> {
    let mut v = vec![];
    for _ in 0..6 {
        v = gen_ty(t, &s.fields[i].ty, r, d);
        let ident = matches!(v.first(), Some(Tok::Id(_)));
        let st = match v.get(1) {
            None => Some(Style::Flag),
            Some(Tok::P(x)) if x == "=" => Some(Style::Value),
            Some(Tok::G('(', _)) => Some(Style::Args),
            _ => None,
        };
        if !ident || st.is_none_or(|st| !s.declares(st)) {
            break;
        }
    }
    v
}
pub fn gen_pt(t: &Table, s: &Pt, r: &mut Rng, d: usize, variant: Option<usize>) -> Vec<Tok> {
    if s.variants.is_empty() {
        return vec![];
    }
    let mut v = variant.unwrap_or_else(|| r.below(s.variants.len()));
    if d > 6 {
        // recursive types: take the variant without references
        v = (0..s.variants.len()).find(|&i| s.variants[i].iter().all(|f| !matches!(f.ty, Ty::Ref(_)))).unwrap_or(v);
    }
    let mut stack: Vec<(char, Vec<Tok>)> = vec![('\0', vec![])];
    for f in &s.variants[v] {
        let mut opened = false;
        for c in f.delims.chars() {
            if "([{".contains(c) {
                let c = if f.macro_delim { *r.pick(&['(', '[', '{']) } else { c };
                stack.push((c, vec![]));
                opened = true;
            } else {
                let (c, x) = stack.pop().unwrap();
                stack.last_mut().unwrap().1.push(Tok::G(c, x));
            }
        }
        if opened {
            continue;
        }
        let cur = &mut stack.last_mut().unwrap().1;
        let one = |r: &mut Rng| if f.any { vec![gen_any_ident(r)] } else { gen_ty(t, &f.ty, r, d) };
        if let Some(sep) = &f.term {
            let n = few(r, d);
            for i in 0..n {
                cur.extend(one(r));
                if i + 1 < n || r.pct(30) {
                    cur.extend(gen_leaf(sep, r));
                }
            }
        } else {
            cur.extend(one(r));
        }
    }
    while stack.len() > 1 {
        let (c, x) = stack.pop().unwrap();
        stack.last_mut().unwrap().1.push(Tok::G(c, x));
    }
    stack.pop().unwrap().1
}
// ------------------------------------------------------------------ token-level mutations
fn pick_vec<'a>(v: &'a mut Vec<Tok>, r: &mut Rng) -> &'a mut Vec<Tok> {
    let groups: Vec<usize> = (0..v.len()).filter(|&i| matches!(v[i], Tok::G(..))).collect();
    if !groups.is_empty() && r.pct(50) {
        let i = *r.pick(&groups);
        if let Tok::G(_, inner) = &mut v[i] {
            return pick_vec(inner, r);
        }
        unreachable!()
    }
    v
}
pub fn mutate_tokens(v: &mut Vec<Tok>, r: &mut Rng) -> &'static str {
    let w = pick_vec(v, r);
    let n = w.len();
    match r.below(12) {
        0 | 1 if n > 0 => {
            w.remove(r.below(n));
            "drop"
        }
        2 if n > 0 => {
            let i = r.below(n);
            let x = w[i].clone();
            w.insert(i, x);
            "dup"
        }
        3 if n > 1 => {
            let i = r.below(n - 1);
            w.swap(i, i + 1);
            "swap"
        }
        4 | 5 if n > 0 => {
            let i = r.below(n);
            w[i] = soup_tok(r, 2);
            "replace"
        }
        6 if n > 0 => {
            let i = r.below(n);
            if let Tok::G(c, _) = &mut w[i] {
                *c = *r.pick(&['(', '[', '{', 'N']);
                "delimiter"
            } else {
                let x = w[i].clone();
                w[i] = Tok::G(*r.pick(&['(', '[', '{', 'N']), vec![x]);
                "wrap"
            }
        }
        7 if n > 0 => {
            let i = r.below(n);
            if let Tok::G(_, inner) = w[i].clone() {
                w.splice(i..=i, inner);
                "unwrap"
            } else {
                w.truncate(i);
                "truncate"
            }
        }
        8 => {
            w.push(soup_tok(r, 2));
            "append"
        }
        9 => {
            w.insert(0, soup_tok(r, 2));
            "prepend"
        }
        10 if n > 0 => {
            let i = r.below(n);
            if matches!(w[i], Tok::Id(_)) {
                w[i] = id(r.pick(KEYWORDS));
                "keyword"
            } else {
                w.truncate(i);
                "truncate"
            }
        }
        _ => {
            w.insert(r.below(n + 1), soup_tok(r, 2));
            "insert"
        }
    }
}
// ------------------------------------------------------------------ list-level mutations
/// every punctuation of the Rust grammar (macro-only ones included)
pub const PUNCTS: &[&str] = &[
    "=", "<", ">", "!", "~", "+", "-", "*", "/", "%", "^", "&", "|", "@", ".", ",", ";", ":", "#", "$", "?", "==", "=>", "->", "<-", "::", "..", "...", "..=", "<=", ">=", "!=", "&&", "||", "<<", ">>",
    "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=",
];
/// one token that is no argument of its own in most declarations
pub fn stray(r: &mut Rng) -> Tok {
    match r.below(12) {
        0 => Tok::Life((*r.pick(&["'a", "'static", "'_"])).into()),
        1 => Tok::G(*r.pick(&['[', '{', '(']), vec![]),
        2 => id(*r.pick(&["_", "dyn", "mut", "ref", "as", "in", "where", "pub", "else"])),
        3 => soup_tok(r, 1),
        _ => p(*r.pick(PUNCTS)),
    }
}
pub fn comma_damage(v: &mut Vec<Tok>, r: &mut Rng) -> &'static str {
    // sometimes inside the parentheses of an argument
    if r.pct(30) {
        let gs: Vec<usize> = (0..v.len()).filter(|&i| matches!(&v[i], Tok::G('(', _))).collect();
        if !gs.is_empty() {
            let i = *r.pick(&gs);
            if let Tok::G(_, inner) = &mut v[i] {
                return comma_damage(inner, r);
            }
        }
    }
    let commas: Vec<usize> = (0..v.len()).filter(|&i| v[i] == p(",")).collect();
    match r.below(11) {
        6 | 7 => {
            // alone where an argument could stand at the end
            if !v.is_empty() && v.last() != Some(&p(",")) {
                v.push(p(","));
            }
            v.push(stray(r));
            if r.pct(20) {
                v.push(p(","));
            }
            "stray last argument"
        }
        8 if !commas.is_empty() => {
            let i = *r.pick(&commas);
            v[i] = stray(r);
            "stray token for a comma"
        }
        9 if !commas.is_empty() => {
            // next to a comma, on either side
            let i = *r.pick(&commas) + r.below(2);
            v.insert(i, stray(r));
            if r.pct(30) {
                v.insert(i + 1, p(","));
            }
            "stray token at a comma"
        }
        10 => {
            let k = if r.pct(50) { 0 } else { v.len() };
            v.insert(k, stray(r));
            "stray token at an end"
        }
        0 => {
            v.insert(0, p(","));
            "leading comma"
        }
        1 | 2 if !commas.is_empty() => {
            let i = *r.pick(&commas);
            v.insert(i, p(","));
            "doubled comma"
        }
        3 if !commas.is_empty() => {
            let i = *r.pick(&commas);
            v.remove(i);
            "missing comma"
        }
        4 if !commas.is_empty() => {
            let i = *r.pick(&commas);
            v[i] = p(r.pick(&[";", ":", "+", "=>", "."]));
            "other separator"
        }
        _ => {
            v.push(p(","));
            v.push(p(","));
            "two trailing commas"
        }
    }
}
/// extra or broken tokens in or after the value of one argument
pub fn value_damage(l: &mut List, r: &mut Rng) -> &'static str {
    if l.args.is_empty() {
        l.args.push(Arg { toks: soup(r, 3, 2), kind: AKind::Other });
        return "soup";
    }
    let i = r.below(l.args.len());
    let a = &mut l.args[i];
    match r.below(6) {
        0 => {
            a.toks.push(soup_tok(r, 1));
            "extra token after value"
        }
        1 => {
            let gs: Vec<usize> = (0..a.toks.len()).filter(|&i| matches!(&a.toks[i], Tok::G('(', _))).collect();
            if let Some(&g) = gs.last() {
                if let Tok::G(_, inner) = &mut a.toks[g] {
                    let at = if r.pct(60) { inner.len() } else { r.below(inner.len() + 1) };
                    let x = soup_tok(r, 1);
                    inner.insert(at, x);
                    if r.pct(30) {
                        let x = soup_tok(r, 1);
                        inner.push(x);
                    }
                }
                return "extra token in parentheses";
            }
            a.toks.push(soup_tok(r, 1));
            "extra token after value"
        }
        2 => {
            // drop the value
            a.toks.truncate(2);
            "value dropped"
        }
        3 => {
            let k = a.toks.len();
            if k > 2 {
                a.toks.splice(2.., soup(r, 3, 1));
            } else {
                a.toks.extend(soup(r, 3, 1));
            }
            "value replaced"
        }
        4 => {
            let x = a.toks.clone();
            a.toks.extend(x);
            "argument written twice without comma"
        }
        _ => {
            mutate_tokens(&mut a.toks, r);
            "token mutation"
        }
    }
}
