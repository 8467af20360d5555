//! Strategies that produce argument lists for StructMeta types: conforming ones and ones with a planned defect.
use crate::gen_in::*;
use crate::leaf::*;
use crate::rng::Rng;
use crate::shape::*;
use crate::tok::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strat {
    Conform,
    Unknown,
    WrongStyle,
    Dup,
    Missing,
    Omit,
    Surplus,
    Late,
    Comma,
    Value,
    Mutate,
    Ambig,
    NameVar,
    OnlyPos,
    RestOnly,
}
use Strat::*;

fn named_arg(t: &Table, s: &Sm, i: usize, st: Style, r: &mut Rng, d: usize) -> Arg {
    let f = &s.fields[i];
    let name = f.name.clone().unwrap();
    Arg { toks: gen_named(t, f, &name, st, r, d), kind: AKind::Named(i, st) }
}
/// named argument with arbitrary value in the given style
fn loose(name: &str, st: Style, r: &mut Rng) -> Arg {
    let mut toks = vec![id(name)];
    if r.pct(80) {
        toks.extend(any_value(st, r));
    } else {
        match st {
            Style::Flag => {}
            Style::Value => {
                toks.push(p("="));
                toks.extend(soup(r, 3, 1));
            }
            Style::Args => toks.push(paren(soup(r, 4, 2))),
        }
    }
    Arg { toks, kind: AKind::Other }
}
pub fn foreign_name(s: &Sm, r: &mut Rng) -> String {
    for _ in 0..30 {
        let named = s.named();
        let x = match r.below(8) {
            0..=3 if !named.is_empty() => {
                let n = s.fields[*r.pick(&named)].name.clone().unwrap();
                near(&n, r)
            }
            4 => r.pick(KEYWORDS).to_string(),
            5 => r.pick(&["r#type", "r#abc", "r#if", "r#a", "r#name"]).to_string(),
            6 if r.pct(25) => odd_name(r),
            6 => format!("{}{}", r.pick(IDENTS), r.below(20)),
            _ => r.pick(IDENTS).to_string(),
        };
        if !s.fields.iter().any(|f| f.name.as_deref() == Some(&x)) {
            return x;
        }
    }
    format!("unknown{}", r.below(1000))
}
fn insert_at(l: &mut List, a: Arg, r: &mut Rng) {
    let n = l.args.len();
    let at = match r.below(4) {
        0 => n,
        1 => l.first_named(),
        2 if n > 0 => r.range(l.first_named().min(n), n),
        _ => r.below(n + 1),
    };
    l.args.insert(at, a);
}
/// a list of `s` made by the strategy; the planned defect may also sit in the arguments of a nested StructMeta type
pub fn make_list(t: &Table, s: &Sm, strat: Strat, r: &mut Rng, d: usize) -> List {
    if d < 3 && strat != Conform && r.pct(35) {
        let nested: Vec<usize> = (0..s.fields.len())
            .filter(|&i| matches!(&s.fields[i].ty, Ty::Ref(x) if t.get(x).is_sm()) && s.fields[i].name.is_some())
            .collect();
        if !nested.is_empty() {
            let i = *r.pick(&nested);
            let f = &s.fields[i];
            let Ty::Ref(inner) = &f.ty else { unreachable!() };
            let sts: Vec<Style> = admitted(f).into_iter().filter(|s| *s != Style::Flag).collect();
            if !sts.is_empty() {
                let st = *r.pick(&sts);
                let mut l = gen_list(t, s, r, d);
                l.args.retain(|a| !matches!(a.kind, AKind::Named(j, _) if j == i));
                let body = make_list(t, t.get(inner).sm(), strat, r, d + 1).toks();
                let mut toks = vec![id(f.name.as_ref().unwrap())];
                if st == Style::Value {
                    toks.push(p("="));
                    toks.extend(body);
                } else {
                    toks.push(paren(body));
                }
                let a = Arg { toks, kind: AKind::Named(i, st) };
                if st == Style::Value {
                    l.args.push(a);
                } else {
                    let k = l.first_named();
                    l.args.insert(k, a);
                }
                return l;
            }
        }
    }
    let mut l = gen_list(t, s, r, d);
    let named = s.named();
    match strat {
        Conform => {}
        Unknown => {
            for _ in 0..r.range(1, 2) {
                let name = foreign_name(s, r);
                let st = *r.pick(&STYLES);
                let a = loose(&name, st, r);
                insert_at(&mut l, a, r);
            }
        }
        WrongStyle => {
            let c: Vec<usize> = named.clone();
            if !c.is_empty() {
                let i = *r.pick(&c);
                let f = &s.fields[i];
                let not: Vec<Style> = STYLES.iter().copied().filter(|x| !f.admits(*x)).collect();
                if r.pct(60) {
                    l.args.retain(|a| !matches!(a.kind, AKind::Named(j, _) if j == i));
                }
                let name = f.name.clone().unwrap();
                let st = *r.pick(&not);
                // often with a value the field would take
                let a = if r.pct(60) && st != Style::Flag {
                    let mut v = gen_ty(t, &f.ty, r, d + 1);
                    if st == Style::Value {
                        v.insert(0, p("="));
                    } else {
                        v = vec![paren(v)];
                    }
                    v.insert(0, id(&name));
                    Arg { toks: v, kind: AKind::Other }
                } else {
                    loose(&name, st, r)
                };
                insert_at(&mut l, a, r);
            } else if let Some(rest) = s.rest() {
                let f = &s.fields[rest];
                let not: Vec<Style> = STYLES.iter().copied().filter(|x| !f.admits(*x)).collect();
                let st = *r.pick(&not);
                let name = foreign_name(s, r);
                let a = loose(&name, st, r);
                insert_at(&mut l, a, r);
            } else {
                let a = loose(r.pick(IDENTS), *r.pick(&STYLES), r);
                insert_at(&mut l, a, r);
            }
        }
        Dup => {
            let given: Vec<usize> = (0..l.args.len()).filter(|&k| matches!(l.args[k].kind, AKind::Named(..) | AKind::Rest(..))).collect();
            if given.is_empty() {
                if !named.is_empty() {
                    let i = *r.pick(&named);
                    for _ in 0..2 {
                        let st = *r.pick(&admitted(&s.fields[i]));
                        l.args.push(named_arg(t, s, i, st, r, d));
                    }
                }
            } else {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    let k = *r.pick(&given);
                    let a = match l.args[k].kind.clone() {
                        AKind::Named(i, st0) => {
                            let sts = admitted(&s.fields[i]);
                            let st = *r.pick(&sts);
                            if st == st0 && r.pct(30) { l.args[k].clone() } else { named_arg(t, s, i, st, r, d) }
                        }
                        AKind::Rest(name, _) => {
                            let f = &s.fields[s.rest().unwrap()];
                            let st = *r.pick(&admitted(f));
                            Arg { toks: gen_named(t, f, &name, st, r, d), kind: AKind::Rest(name, st) }
                        }
                        _ => unreachable!(),
                    };
                    let at = if r.pct(40) { l.args.len() } else { r.range(l.first_named(), l.args.len()) };
                    l.args.insert(at, a);
                    if r.pct(60) {
                        break;
                    }
                }
            }
        }
        Missing => {
            let req: Vec<usize> =
                (0..l.args.len()).filter(|&k| matches!(l.args[k].kind, AKind::Named(i, _) | AKind::Pos(i) if s.fields[i].required() || s.fields[i].positional())).collect();
            if !req.is_empty() {
                let n = if r.pct(70) { 1 } else { r.range(1, req.len()) };
                for _ in 0..n {
                    let req: Vec<usize> =
                        (0..l.args.len()).filter(|&k| matches!(l.args[k].kind, AKind::Named(i, _) | AKind::Pos(i) if s.fields[i].required() || s.fields[i].positional())).collect();
                    if req.is_empty() {
                        break;
                    }
                    let k = *r.pick(&req);
                    l.args.remove(k);
                }
            }
        }
        Omit => {
            let keep = *r.pick(&[0, 0, 30, 70]);
            let mut a = vec![];
            let np = l.args.iter().filter(|a| matches!(a.kind, AKind::Pos(_))).count();
            let nreq = s.required_pos().len();
            let cut = if np > nreq { r.range(nreq, np) } else { np };
            let mut k = 0;
            for x in l.args.drain(..) {
                let keep = match &x.kind {
                    AKind::Pos(_) => {
                        k += 1;
                        k <= cut
                    }
                    AKind::Named(i, _) => s.fields[*i].required() || r.pct(keep),
                    _ => r.pct(keep),
                };
                if keep {
                    a.push(x);
                }
            }
            l.args = a;
        }
        Surplus => {
            let k = l.first_named();
            for _ in 0..r.range(1, 3) {
                let kind = *r.pick(&["LitInt", "LitStr", "Expr", "Ident", "Type", "Path"]);
                let toks = gen_leaf(kind, r);
                l.args.insert(k, Arg { toks, kind: AKind::Other });
            }
        }
        Late => {
            if l.first_named() == l.args.len() && !named.is_empty() {
                let i = *r.pick(&named);
                let st = *r.pick(&admitted(&s.fields[i]));
                l.args.push(named_arg(t, s, i, st, r, d));
            }
            let n = l.args.len();
            let k = r.range((l.first_named() + 1).min(n), n);
            let pos: Vec<usize> = s.optional_pos().into_iter().chain(s.variadic()).collect();
            let toks = if !pos.is_empty() && r.pct(70) {
                let i = *r.pick(&pos);
                gen_ty(t, &s.fields[i].ty, r, d)
            } else {
                gen_leaf(*r.pick(&["LitInt", "LitStr", "Expr", "Ident"]), r)
            };
            l.args.insert(k, Arg { toks, kind: AKind::Other });
            // sometimes the positional slots before are not all used
            if r.pct(50) {
                let cut: Vec<usize> = (0..l.args.len()).filter(|&k| matches!(l.args[k].kind, AKind::Pos(i) if s.fields[i].wrap == Wrap::Opt || s.fields[i].form == Form::List)).collect();
                if let Some(&c) = cut.last() {
                    l.args.remove(c);
                }
            }
        }
        OnlyPos => l.args.retain(|a| matches!(a.kind, AKind::Pos(_))),
        RestOnly => {
            if let Some(rest) = s.rest() {
                let f = &s.fields[rest];
                for _ in 0..r.range(1, 6) {
                    let st = if r.pct(85) { *r.pick(&admitted(f)) } else { *r.pick(&STYLES) };
                    let name = if r.pct(75) {
                        rest_name(s, st, r)
                    } else if !named.is_empty() {
                        s.fields[*r.pick(&named)].name.clone().unwrap()
                    } else {
                        r.pick(IDENTS).to_string()
                    };
                    let toks = if f.admits(st) {
                        gen_named(t, f, &name, st, r, d)
                    } else {
                        let mut v = vec![id(&name)];
                        v.extend(any_value(st, r));
                        v
                    };
                    let at = r.range(l.first_named(), l.args.len());
                    l.args.insert(at, Arg { toks, kind: AKind::Rest(name, st) });
                }
            }
        }
        Ambig => {
            for _ in 0..r.range(1, 3) {
                let a = ambiguous(t, s, r, d);
                let k = l.first_named();
                let at = if r.pct(60) { k } else { r.range(0, l.args.len()) };
                l.args.insert(at, a);
            }
            if r.pct(40) {
                // drop the ordinary positionals in favour of the ambiguous ones
                let mut n = r.below(3);
                while n > 0 {
                    if let Some(k) = l.args.iter().position(|a| matches!(a.kind, AKind::Pos(_))) {
                        l.args.remove(k);
                    }
                    n -= 1;
                }
            }
        }
        NameVar => {
            let mut done = false;
            for _ in 0..4 {
                let ks: Vec<usize> = (0..l.args.len()).filter(|&k| matches!(l.args[k].kind, AKind::Named(..) | AKind::Rest(..))).collect();
                if ks.is_empty() {
                    break;
                }
                let k = *r.pick(&ks);
                if let Tok::Id(x) = &l.args[k].toks[0] {
                    let y = match r.below(6) {
                        0 if !x.starts_with("r#") && is_ident(&format!("r#{x}")) => format!("r#{x}"),
                        1 if !named.is_empty() => s.fields[*r.pick(&named)].name.clone().unwrap(),
                        2 => r.pick(IDENTS).to_string(),
                        3 => format!("_value_{}", r.below(3)),
                        _ => near(x, r),
                    };
                    l.args[k].toks[0] = id(&y);
                    l.args[k].kind = AKind::Other;
                    done = true;
                    break;
                }
            }
            if !done {
                let name = foreign_name(s, r);
                let st = *r.pick(&STYLES);
                let a = loose(&name, st, r);
                insert_at(&mut l, a, r);
            }
        }
        Comma | Value | Mutate => {}
    }
    if strat == Value {
        value_damage(&mut l, r);
    }
    l
}
/// an argument that starts with an identifier and may be read as a name or as a value
pub fn ambiguous(t: &Table, s: &Sm, r: &mut Rng, d: usize) -> Arg {
    let named = s.named();
    let name = match r.below(5) {
        0 | 1 if !named.is_empty() => s.fields[*r.pick(&named)].name.clone().unwrap(),
        2 => foreign_name(s, r),
        3 => r.pick(&["A", "Foo", "X1", "aB", "x_1", "_", "self", "true", "Self", "crate", "größe", "b", "abc", "r#type"]).to_string(),
        _ => r.pick(IDENTS).to_string(),
    };
    let mut toks = vec![id(&name)];
    match r.below(13) {
        0..=2 => {}
        3 | 4 => {
            toks.push(p("="));
            toks.extend(gen_leaf(*r.pick(&["LitInt", "Expr", "LitStr"]), r));
        }
        5 => {
            toks.push(p("="));
            toks.push(p(r.pick(&["-", "&", "!", "*", "&&", "|"])));
            toks.extend(gen_leaf("LitInt", r));
        }
        6 => {
            toks.push(p("=="));
            toks.extend(gen_leaf("LitInt", r));
        }
        7 => {
            toks.push(p("=>"));
            toks.extend(gen_leaf("LitInt", r));
        }
        8 | 9 => toks.push(paren(if r.pct(50) { vec![] } else { gen_leaf(*r.pick(&["LitInt", "Expr"]), r) })),
        10 => {
            toks.push(p("::"));
            toks.extend(gen_leaf("Ident", r));
        }
        11 => {
            toks.push(p(r.pick(&["+", "<=", "&&", "..", ".", "+="])));
            toks.extend(gen_leaf("Ident", r));
        }
        _ => {
            toks.push(Tok::G(*r.pick(&['[', '{']), gen_leaf("LitInt", r)));
        }
    }
    // what follows decides nothing about how the argument is read
    for _ in 0..*r.pick(&[0, 0, 0, 0, 0, 1, 1, 2]) {
        match r.below(14) {
            0 | 1 => toks.extend([p("."), gen_ident(r)]),
            2 => toks.extend([p("."), lit("0")]),
            3 => toks.push(p("?")),
            4 => {
                toks.push(p(r.pick(PUNCTS)));
                toks.extend(gen_leaf("LitInt", r));
            }
            5 => toks.push(Tok::G('[', gen_leaf("LitInt", r))),
            6 | 7 => toks.push(paren(if r.pct(50) { vec![] } else { gen_leaf("Expr", r) })),
            8 => toks.extend([p("::"), gen_ident(r)]),
            9 => toks.push(Tok::G('{', vec![])),
            10 => toks.push(p(r.pick(PUNCTS))),
            11 => toks.extend([id("as"), gen_ident(r)]),
            12 => toks.extend([p("."), id("await")]),
            _ => toks.extend([p(r.pick(&["..", "..=", "&&", "||", "+", "<"])), gen_ident(r)]),
        }
    }
    if r.pct(3) {
        toks = vec![Tok::G('N', toks)];
    }
    let _ = (t, d);
    Arg { toks, kind: AKind::Other }
}
/// strategy applied down to tokens
pub fn make_toks(t: &Table, s: &Sm, strat: Strat, r: &mut Rng) -> (List, Vec<Tok>) {
    let mut l = make_list(t, s, strat, r, 0);
    if strat == Omit || strat == OnlyPos {
        l.trailing = l.trailing && !l.args.is_empty();
    }
    let mut v = l.toks();
    match strat {
        Comma => {
            comma_damage(&mut v, r);
        }
        Mutate => {
            for _ in 0..r.range(1, 3) {
                mutate_tokens(&mut v, r);
            }
        }
        _ => {}
    }
    (l, v)
}
