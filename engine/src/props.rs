//! The oracle of each property: builds one case from a random generator, runs the derived code on it
//! and judges what was observed.
use crate::ctx::*;
use crate::gen_in::*;
use crate::leaf::*;
use crate::lists::*;
use crate::model::*;
use crate::node::*;
use crate::reg::*;
use crate::rng::*;
use crate::shape::*;
use crate::tok::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// shapes the property is decided on
pub fn wanted(prop: &str, s: &Shape) -> bool {
    if s.has("helper") {
        return false;
    }
    let sm = s.is_sm();
    match prop {
        "C01" | "C02" | "C04" | "C06" | "C09" | "C13" => sm,
        "C03" => sm && s.sm().fields.iter().any(|f| !f.positional()),
        "C05" => sm,
        "C07" => sm && (!s.sm().optional_pos().is_empty() || s.sm().variadic().is_some() || s.has("reqident")),
        "C08" => sm && s.sm().rest().is_some(),
        "C10" => sm,
        "C11" => s.has("spelled"),
        "C12" => sm,
        "C14" => sm && s.sm().named().len() > 0 && s.sm().rest().is_none(),
        "C15" | "C16" => true,
        "C17" => !sm && !s.pt().is_enum,
        "C18" => !sm && s.pt().is_enum && !s.has("peek"),
        "C19" => !sm && s.pt().is_enum && s.has("peek"),
        "C20" => !sm && s.has("delim"),
        "C21" => !sm && (s.has("any") || s.has("term")),
        "C22" | "C23" => !sm,
        "C25" => s.has("generic"),
        "C26" => s.has("hostile"),
        "C30" => s.embed.is_some() || s.has("nested"),
        _ => false,
    }
}
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "generated argument lists; non-trivial: the reference model accepts the list and at least one argument was given",
        "C02" => "lists with a planted undeclared name or wrong style; non-trivial: the model rejects the list for exactly that reason",
        "C03" => "lists with a planted repetition (or near-repetition); non-trivial: the model rejects the list as repeated, or it has two or more distinct named arguments",
        "C04" => "lists omitting parameters; non-trivial: a required parameter is missing, or an optional one is omitted from an accepted list",
        "C05" => "lists with positional values in every position; non-trivial: at least one positional argument was placed, or a surplus/late one must be rejected",
        "C06" => "lists with damaged commas and stray tokens; non-trivial: the model rejects for a separator, a leftover token or a value; or a trailing comma pair was compared",
        "C07" => "lists with identifier-starting arguments for structs with positional parameters; non-trivial: contains at least one such argument after the required ones",
        "C08" => "lists of declared and undeclared names for structs with a rest map; non-trivial: at least one argument is meant for the map or must be kept out of it",
        "C09" => "pairs of lists differing in order of named arguments, trailing comma or spacing; non-trivial: the two token texts differ",
        "C10" => "lists whose names are exact or near-miss spellings; non-trivial: at least one named argument",
        "C11" => "the same input given to a plainly spelled declaration and to its re-spelled twin; non-trivial: non-empty input",
        "C12" => "accepted lists for structs with span-carrying fields; non-trivial: at least one named argument was recorded",
        "C13" => "rejected lists; non-trivial: the model rejects for unknown, wrong style, repeated, surplus, late or missing",
        "C14" => "unknown names near to and far from the declared ones; non-trivial: at least one declared name is within one edit or swap, or a suggestion was made",
        "C15" => "arbitrary token streams (soup, mutations, invisible groups, long and deep lists); non-trivial: at least one token",
        "C16" => "the same tokens parsed repeatedly in different histories; non-trivial: non-empty input parsed at least three times in different histories",
        "C17" | "C18" | "C19" | "C20" | "C21" => "token streams conforming to the declaration, mutated, truncated or extended, parsed completely and as a prefix; non-trivial: non-empty input whose outcome was compared with the model",
        "C22" => "values built field by field without the derived parser and printed; non-trivial: at least one token printed",
        "C23" => "token streams parsed, printed and parsed again; non-trivial: accepted, printed and re-parsed",
        "C25" => "instances of generic declarations compared with the model of the same declaration written without generics; non-trivial: non-empty input",
        "C26" => "types declared in scopes full of hostile names, compared with the model of the same declaration in a clean scope; non-trivial: non-empty input",
        "C30" => "derived types nested in derived types, compared with the inner type alone and with the model; non-trivial: the nested parser was entered",
        _ => "",
    }
}
pub fn case(cx: &Cx, r: &mut Rng, rec: &mut Rec) {
    let s = cx.pick(r);
    match cx.prop.as_str() {
        "C01" => c01(cx, s, r, rec),
        "C02" => c02(cx, s, r, rec),
        "C03" => c03(cx, s, r, rec),
        "C04" => c04(cx, s, r, rec),
        "C05" => c05(cx, s, r, rec),
        "C06" => c06(cx, s, r, rec),
        "C07" => c07(cx, s, r, rec),
        "C08" => c08(cx, s, r, rec),
        "C09" => c09(cx, s, r, rec),
        "C10" => c10(cx, s, r, rec),
        "C11" => c11(cx, s, r, rec),
        "C12" => c12(cx, s, r, rec),
        "C13" => c13(cx, s, r, rec),
        "C14" => c14(cx, s, r, rec),
        "C15" => c15(cx, s, r, rec),
        "C17" | "C18" | "C19" | "C20" | "C21" => pt_case(cx, s, r, rec),
        "C22" => c22(cx, s, r, rec),
        "C23" => c23(cx, s, r, rec),
        "C25" | "C26" => c25(cx, s, r, rec),
        "C30" => c30(cx, s, r, rec),
        p => panic!("harness: no case generator for {p}"),
    }
}
fn weighted(r: &mut Rng, w: &[(Strat, usize)]) -> Strat {
    let total = w.iter().map(|x| x.1).sum();
    let mut k = r.below(total);
    for (s, n) in w {
        if k < *n {
            return *s;
        }
        k -= n;
    }
    unreachable!()
}
fn gen_sm(cx: &Cx, s: &Shape, r: &mut Rng, w: &[(Strat, usize)], rec: &mut Rec) -> (Strat, List, String) {
    let st = weighted(r, w);
    let (l, v) = make_toks(&cx.t, s.sm(), st, r);
    rec.count(format!("strategy {st:?}"));
    (st, l, render(&v, layout(r)))
}
fn kind_of(m: &MOut) -> String {
    match &m.res {
        Ok(_) => "model: accept".into(),
        Err(e) => format!("model: {:?}", e.kind),
    }
}
use Strat::*;

fn c01(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, _, text) = gen_sm(cx, s, r, &[(Conform, 70), (Omit, 10), (RestOnly, 5), (OnlyPos, 5), (Ambig, 5), (NameVar, 5)], rec);
    let m = cx.model(s, &text, false);
    rec.count(kind_of(&m));
    let i = cx.imp(rec, s, &text, false);
    if let Ok(n) = &m.res {
        if m.trace.named + m.trace.positional + m.trace.rest > 0 {
            rec.nontrivial(s, &text);
        }
        match &i.res {
            Ok(x) if same(n, x, Cmp::NoPos) && !same(n, x, Cmp::NoNames) => {
                rec.find("a field holds a value taken from another place", s, &[&text], show_m(&m), show_res(&i))
            }
            Ok(x) if same(n, x, Cmp::NoNames) => {}
            Ok(_) => rec.find("a conforming list is stored wrongly", s, &[&text], show_m(&m), show_res(&i)),
            Err(_) => rec.find("a conforming list is rejected", s, &[&text], show_m(&m), show_res(&i)),
        }
    }
}
fn must_reject(cx: &Cx, s: &Shape, text: &str, rec: &mut Rec, kinds: &[Kind], what: &str) -> MOut {
    let m = cx.model(s, text, false);
    rec.count(kind_of(&m));
    if let Err(e) = &m.res {
        if kinds.contains(&e.kind) || e.comma && kinds.contains(&Kind::Comma) {
            rec.nontrivial(s, text);
            if e.comma {
                rec.count("a comma where an argument must be");
            }
            if let Some(st) = e.style {
                rec.count(format!("planted in style {st:?}"));
            }
            let i = cx.imp(rec, s, text, false);
            if i.res.is_ok() {
                rec.find(what, s, &[text], show_m(&m), show_res(&i));
            }
        }
    }
    m
}
fn c02(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, _, text) = gen_sm(cx, s, r, &[(Unknown, 45), (WrongStyle, 45), (NameVar, 10)], rec);
    must_reject(cx, s, &text, rec, &[Kind::Unknown, Kind::WrongStyle], "an undeclared name or style is accepted");
}
fn c03(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, l, text) = gen_sm(cx, s, r, &[(Dup, 70), (RestOnly, 15), (Conform, 15)], rec);
    let m = must_reject(cx, s, &text, rec, &[Kind::Dup], "a repeated parameter is accepted");
    if m.res.is_ok() && m.trace.named + m.trace.rest >= 2 {
        rec.nontrivial(s, &text);
        let i = cx.imp(rec, s, &text, false);
        if i.res.is_err() {
            // distinct names taken for duplicates? then dropping one of them helps
            for (k, a) in l.args.iter().enumerate() {
                if matches!(a.kind, AKind::Rest(..)) || matches!(a.kind, AKind::Named(i, _) if !s.sm().fields[i].required()) {
                    let mut l2 = l.clone();
                    l2.args.remove(k);
                    let t2 = render(&l2.toks(), Layout::Wide);
                    if cx.model(s, &t2, false).res.is_ok() && cx.imp(rec, s, &t2, false).res.is_ok() && l2.args.iter().any(|a| !matches!(a.kind, AKind::Pos(_))) {
                        let mut l3 = l.clone();
                        l3.args = vec![a.clone()];
                        let req_alone = s.sm().fields.iter().all(|f| !f.required() && !(f.positional() && f.wrap == Wrap::Req && f.form != Form::List));
                        let t3 = render(&l3.toks(), Layout::Wide);
                        if req_alone && cx.imp(rec, s, &t3, false).res.is_ok() {
                            rec.find("distinct parameters count as duplicates", s, &[&text, &t2, &t3], show_m(&m), show_res(&i));
                            return;
                        }
                    }
                }
            }
        }
    }
}
fn omitted_ok(f: &SmField, positional_variadic: bool, n: &Node) -> bool {
    if f.wrap == Wrap::Rest {
        return matches!(n, Node::Map(m) if m.is_empty());
    }
    if positional_variadic {
        return matches!(n, Node::List(v) if v.is_empty());
    }
    match (f.wrap, f.form) {
        (Wrap::Opt, _) => *n == Node::None,
        (_, Form::Bool) => *n == Node::Bool(false),
        (_, Form::Flag) => *n == Node::Flag(None),
        _ => true,
    }
}
fn c04(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, l, text) = gen_sm(cx, s, r, &[(Missing, 50), (Omit, 50)], rec);
    let m = must_reject(cx, s, &text, rec, &[Kind::MissingNamed, Kind::MissingPos], "a missing required parameter is not reported");
    if m.res.is_ok() {
        let sm = s.sm();
        let given = &m.trace.given;
        let i = cx.imp(rec, s, &text, false);
        let omitted: Vec<usize> = (0..sm.fields.len()).filter(|k| !given.contains(k) && (sm.rest() != Some(*k) || m.trace.rest == 0)).collect();
        if omitted.is_empty() {
            return;
        }
        rec.nontrivial(s, &text);
        rec.count("accepted with omitted parameters");
        match &i.res {
            Ok(Node::Struct(v)) => {
                for k in omitted {
                    if !omitted_ok(&sm.fields[k], sm.variadic() == Some(k), &v[k]) {
                        rec.find("an omitted parameter is not empty", s, &[&text], show_m(&m), show_res(&i));
                        return;
                    }
                }
            }
            Ok(_) => {}
            Err(_) => {
                // is it the omission? complete the list with every omitted optional
                let mut l2 = l.clone();
                let opt = sm.optional_pos();
                let npos = l2.args.iter().filter(|a| matches!(a.kind, AKind::Pos(i) if sm.fields[i].wrap == Wrap::Opt)).count();
                for &k in &opt[npos.min(opt.len())..] {
                    let at = l2.first_named();
                    l2.args.insert(at, Arg { toks: gen_ty(&cx.t, &sm.fields[k].ty, r, 1), kind: AKind::Pos(k) });
                }
                for k in sm.named() {
                    if omitted.contains(&k) {
                        let f = &sm.fields[k];
                        let st = *r.pick(&admitted(f));
                        let toks = gen_named(&cx.t, f, f.name.as_ref().unwrap(), st, r, 1);
                        l2.args.push(Arg { toks, kind: AKind::Named(k, st) });
                    }
                }
                let t2 = render(&l2.toks(), Layout::Wide);
                if cx.model(s, &t2, false).res.is_ok() && cx.imp(rec, s, &t2, false).res.is_ok() {
                    rec.find("omitting optional parameters makes parsing fail", s, &[&text, &t2], show_m(&m), show_res(&i));
                }
            }
        }
    }
}
fn c05(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, l, text) = gen_sm(cx, s, r, &[(Conform, 35), (OnlyPos, 25), (Surplus, 20), (Late, 20)], rec);
    let m = must_reject(cx, s, &text, rec, &[Kind::TooMany, Kind::Late], "a surplus or late positional argument is accepted");
    let sm = s.sm();
    if m.trace.positional == 0 {
        return;
    }
    if let Ok(n) = &m.res {
        rec.nontrivial(s, &text);
        let i = cx.imp(rec, s, &text, false);
        match (&i.res, n) {
            (Ok(Node::Struct(v)), Node::Struct(w)) => {
                for k in sm.positionals().into_iter().chain(sm.variadic()) {
                    if !same(&v[k], &w[k], Cmp::NoNames) {
                        rec.find("a positional argument is in the wrong field", s, &[&text], show_m(&m), show_res(&i));
                        return;
                    }
                }
            }
            (Err(e), _) => {
                let named = l.args.iter().any(|a| !matches!(a.kind, AKind::Pos(_)));
                // with named arguments around, blame the positionals only if the named ones alone are fine
                let mut blame = !named;
                if named {
                    let mut l2 = l.clone();
                    let nreq = sm.required_pos().len();
                    let mut k = 0;
                    l2.args.retain(|a| {
                        if matches!(a.kind, AKind::Pos(_)) {
                            k += 1;
                            k <= nreq
                        } else {
                            true
                        }
                    });
                    let t2 = render(&l2.toks(), Layout::Wide);
                    blame = l2.args.len() < l.args.len() && cx.model(s, &t2, false).res.is_ok() && cx.imp(rec, s, &t2, false).res.is_ok();
                }
                if blame && !e.msg.starts_with("missing argument `") {
                    rec.find("admissible positional arguments are rejected", s, &[&text], show_m(&m), show_res(&i));
                }
            }
            _ => {}
        }
    }
}
fn c06(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (st, l, text) = gen_sm(cx, s, r, &[(Comma, 40), (Value, 35), (Mutate, 15), (Conform, 10)], rec);
    let m = must_reject(
        cx,
        s,
        &text,
        rec,
        if st == Comma { &[Kind::Comma, Kind::Leftover, Kind::Value, Kind::TooMany, Kind::Late, Kind::Unknown] } else { &[Kind::Comma, Kind::Leftover, Kind::Value] },
        "a damaged separator, a stray token or an unparsable value is accepted",
    );
    // a trailing comma changes nothing
    if r.pct(30) && !l.args.is_empty() {
        let lay = layout(r);
        let with = render(&List { trailing: true, ..l.clone() }.toks(), lay);
        let without = render(&List { trailing: false, ..l.clone() }.toks(), lay);
        let (m1, m2) = (cx.model(s, &with, false), cx.model(s, &without, false));
        if let (Ok(a), Ok(b)) = (&m1.res, &m2.res) {
            if same(a, b, Cmp::NoPos) {
                rec.nontrivial(s, &with);
                rec.count("trailing comma pairs");
                let (x, y) = (cx.imp(rec, s, &with, false), cx.imp(rec, s, &without, false));
                if !agree(&x, &y) {
                    rec.find("a trailing comma changes the outcome", s, &[&with, &without], show_res(&y), show_res(&x));
                }
            }
        }
    }
    // well-separated lists are accepted
    if m.res.is_ok() {
        let i = cx.imp(rec, s, &text, false);
        if i.res.is_ok() {
            if let (Ok(a), Ok(b)) = (&m.res, &i.res) {
                if a.leaves() > b.leaves() {
                    rec.find("tokens were skipped", s, &[&text], show_m(&m), show_res(&i));
                }
            }
        }
    }
}
fn agree(x: &IOut, y: &IOut) -> bool {
    match (&x.res, &y.res) {
        (Ok(a), Ok(b)) => same(a, b, Cmp::NoPos),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
/// model and implementation must agree completely (verdict and values)
fn exact(cx: &Cx, s: &Shape, text: &str, partial: bool, cmp: Cmp, rec: &mut Rec, what: &str) -> MOut {
    let m = cx.model(s, text, partial);
    rec.count(kind_of(&m));
    let i = cx.imp(rec, s, text, partial);
    let ok = match (&m.res, &i.res) {
        (Ok(a), Ok(b)) => same(a, b, cmp) && m.rest == i.rest,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !ok {
        rec.find(what, s, &[text], show_m(&m), show_res(&i));
    }
    m
}
fn c07(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, l, text) = gen_sm(cx, s, r, &[(Ambig, 80), (Conform, 10), (Unknown, 10)], rec);
    let identish = l.args.iter().filter(|a| matches!(a.toks.first(), Some(Tok::Id(_)))).count();
    let m = exact(cx, s, &text, false, Cmp::NoNames, rec, "an ambiguous argument is read the wrong way");
    if identish > 0 {
        rec.nontrivial(s, &text);
    }
    if m.trace.ident_positional > 0 {
        rec.count("identifier read as positional value");
    }
    // spacing of `name=-1` and friends
    if r.pct(20) {
        let v = l.toks();
        let (a, b) = (render(&v, Layout::Wide), render(&v, Layout::Tight));
        let (ma, mb) = (cx.model(s, &a, false), cx.model(s, &b, false));
        let (x, y) = (cx.imp(rec, s, &a, false), cx.imp(rec, s, &b, false));
        let mok = match (&ma.res, &mb.res) {
            (Ok(a), Ok(b)) => same(a, b, Cmp::NoPos),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if mok && !agree(&x, &y) {
            rec.find("spacing changes how an argument is read", s, &[&a, &b], show_res(&x), show_res(&y));
        }
    }
}
fn c08(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, l, text) = gen_sm(cx, s, r, &[(RestOnly, 55), (Conform, 20), (WrongStyle, 15), (NameVar, 10)], rec);
    let m = must_reject(cx, s, &text, rec, &[Kind::Unknown, Kind::WrongStyle], "an argument of a style the rest does not admit is accepted");
    let sm = s.sm();
    let ri = sm.rest().unwrap();
    if let Ok(n) = &m.res {
        if m.trace.rest > 0 {
            rec.nontrivial(s, &text);
            rec.count(format!("rest entries {}", m.trace.rest.min(6)));
        }
        let i = cx.imp(rec, s, &text, false);
        match (&i.res, n) {
            (Ok(Node::Struct(v)), Node::Struct(w)) => {
                if !same(&v[ri], &w[ri], Cmp::NoNames) {
                    rec.find("the rest map is wrong", s, &[&text], show_m(&m), show_res(&i));
                }
            }
            (Err(_), _) if m.trace.rest > 0 => {
                let mut l2 = l.clone();
                l2.args.retain(|a| !matches!(a.kind, AKind::Rest(..)));
                let t2 = render(&l2.toks(), Layout::Wide);
                if cx.model(s, &t2, false).res.is_ok() && cx.imp(rec, s, &t2, false).res.is_ok() {
                    rec.find("arguments for the rest map make parsing fail", s, &[&text, &t2], show_m(&m), show_res(&i));
                }
            }
            _ => {}
        }
    }
}
fn c09(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let st = weighted(r, &[(Conform, 50), (Dup, 8), (Unknown, 8), (Missing, 8), (WrongStyle, 8), (RestOnly, 10), (Ambig, 8)]);
    let l = make_list(&cx.t, s.sm(), st, r, 0);
    rec.count(format!("strategy {st:?}"));
    let mut l2 = l.clone();
    let what = match r.below(4) {
        0 | 1 => {
            let k = l2.first_named();
            let mut tail = l2.args.split_off(k);
            if r.pct(40) {
                tail.reverse();
            } else {
                r.shuffle(&mut tail);
            }
            l2.args.extend(tail);
            "order of named arguments"
        }
        2 => {
            l2.trailing = !l2.trailing;
            "trailing comma"
        }
        _ => "spacing",
    };
    let (la, lb) = if what == "spacing" { (Layout::Wide, *r.pick(&[Layout::Tight, Layout::Random(r.clone().next())])) } else { (Layout::Wide, Layout::Wide) };
    // a value containing an unparenthesised comma makes several arguments out of one
    let (a, b) = (render(&l.toks(), la), render(&l2.toks(), lb));
    if a == b {
        return;
    }
    let (ma, mb) = (cx.model(s, &a, false), cx.model(s, &b, false));
    let same_model = match (&ma.res, &mb.res) {
        (Ok(x), Ok(y)) => same(x, y, Cmp::NoPos),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !same_model {
        rec.count("skipped: values depend on what follows");
        return;
    }
    rec.nontrivial(s, &format!("{a} // {b}"));
    rec.count(format!("changed {what}"));
    let (x, y) = (cx.imp(rec, s, &a, false), cx.imp(rec, s, &b, false));
    if !agree(&x, &y) {
        rec.find(&format!("{what} changes the outcome"), s, &[&a, &b], show_res(&x), show_res(&y));
    }
}
fn c10(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, l, text) = gen_sm(cx, s, r, &[(Conform, 40), (NameVar, 45), (Unknown, 15)], rec);
    if l.args.iter().any(|a| !matches!(a.kind, AKind::Pos(_))) {
        rec.nontrivial(s, &text);
    }
    exact(cx, s, &text, false, Cmp::NoNames, rec, "a name is matched wrongly");
}
fn any_text(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) -> String {
    if !s.deep.is_empty() && s.is_sm() && r.pct(40) {
        rec.count("nested many levels deep");
        let st = if r.pct(70) { Conform } else { *r.pick(&[Unknown, WrongStyle, Dup, Surplus, Value, Mutate]) };
        let v = deepen(s, make_toks(&cx.t, s.sm(), st, r).1, r);
        render(&v, layout(r))
    } else if s.is_sm() {
        gen_sm(
            cx,
            s,
            r,
            &[(Conform, 40), (Omit, 8), (Unknown, 6), (WrongStyle, 10), (Dup, 6), (Missing, 6), (Surplus, 5), (Late, 4), (Comma, 4), (Value, 4), (Mutate, 4), (Ambig, 8), (RestOnly, 5)],
            rec,
        )
        .2
    } else {
        pt_text(cx, s, r, rec)
    }
}
fn c11(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let text = any_text(cx, s, r, rec);
    rec.nontrivial(s, &text);
    let Some(tw) = &s.twin else {
        // unrelated types of the same name: ordinary values
        exact(cx, s, &text, false, Cmp::Full, rec, "a type of the same name from elsewhere is treated specially");
        return;
    };
    let tw = cx.t.get(tw);
    let (a, b) = (cx.imp(rec, tw, &text, false), cx.imp(rec, s, &text, false));
    let ok = match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => same(x, y, Cmp::Full),
        (Err(x), Err(y)) => x.start == y.start,
        _ => false,
    };
    if !ok {
        rec.find("another spelling of the types changes the outcome", s, &[&text], format!("as for\n{}\n{}", tw.decl, show_res(&a)), show_res(&b));
    }
}
fn c12(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, _, text) = gen_sm(cx, s, r, &[(Conform, 75), (Omit, 10), (RestOnly, 15)], rec);
    let m = cx.model(s, &text, false);
    let Ok(n) = &m.res else { return };
    let i = cx.imp(rec, s, &text, false);
    if m.trace.named + m.trace.rest > 0 {
        rec.nontrivial(s, &text);
    }
    if let Ok(x) = &i.res {
        // a Flag that is unset in the model must have no span
        if same(n, x, Cmp::NoNames) && !same(n, x, Cmp::Full) {
            rec.find("the recorded span is not the span of the written name", s, &[&text], show_m(&m), show_res(&i));
        } else if same(n, x, Cmp::NoPos) && !same(n, x, Cmp::NoNames) {
            rec.find("a value does not keep the span of its tokens", s, &[&text], show_m(&m), show_res(&i));
        } else if flags_differ(n, x) {
            rec.find("a Flag has a span although it was not given, or none although it was", s, &[&text], show_m(&m), show_res(&i));
        }
    }
}
fn flags_differ(a: &Node, b: &Node) -> bool {
    match (a, b) {
        (Node::Struct(x), Node::Struct(y)) if x.len() == y.len() => x.iter().zip(y).any(|(x, y)| flags_differ(x, y)),
        (Node::Some(x), Node::Some(y)) | (Node::NA(_, x), Node::NA(_, y)) | (Node::NV(_, x), Node::NV(_, y)) => flags_differ(x, y),
        (Node::List(x), Node::List(y)) if x.len() == y.len() => x.iter().zip(y).any(|(x, y)| flags_differ(x, y)),
        (Node::Flag(x), Node::Flag(y)) => x != y,
        _ => false,
    }
}
/// does the message name the parameter (as a whole word)?
fn mentions(msg: &str, name: &str) -> bool {
    let word = |c: char| c == '_' || c.is_alphanumeric();
    let name = name.strip_prefix("r#").unwrap_or(name);
    msg.match_indices(name).any(|(k, _)| !msg[..k].chars().next_back().is_some_and(word) && !msg[k + name.len()..].chars().next().is_some_and(word))
}
fn c13(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let (_, mut l, mut text) = gen_sm(cx, s, r, &[(Unknown, 20), (WrongStyle, 20), (Dup, 20), (Surplus, 10), (Late, 10), (Missing, 15), (NameVar, 5)], rec);
    // garbage right behind an argument: usually the last or the one repeated, so that the first offence stays the first
    if !l.args.is_empty() && r.pct(30) {
        let k = if r.pct(50) { l.args.len() - 1 } else { r.below(l.args.len()) };
        for _ in 0..r.range(1, 2) {
            let x = match r.below(4) {
                0 => paren(vec![]),
                1 => paren(gen_leaf("Expr", r)),
                2 => stray(r),
                _ => soup_tok(r, 1),
            };
            l.args[k].toks.push(x);
        }
        rec.count("garbage behind an argument");
        text = render(&l.toks(), layout(r));
    }
    let m = cx.model(s, &text, false);
    rec.count(kind_of(&m));
    let Err(e) = &m.res else { return };
    if !matches!(e.kind, Kind::Unknown | Kind::WrongStyle | Kind::Dup | Kind::TooMany | Kind::Late | Kind::MissingNamed) {
        return;
    }
    let i = cx.imp(rec, s, &text, false);
    let Err(x) = &i.res else { return };
    if x.msg.starts_with(PANIC) {
        return;
    }
    rec.nontrivial(s, &text);
    if e.kind == Kind::MissingNamed {
        if !e.missing.iter().any(|n| mentions(&x.msg, n)) {
            rec.find("the message does not name the missing parameter", s, &[&text], show_m(&m), show_res(&i));
        }
        return;
    }
    if e.ng {
        return;
    }
    if Some(x.start) != e.at {
        rec.find("the error is not located at the first offending argument", s, &[&text], show_m(&m), show_res(&i));
    } else if matches!(e.kind, Kind::Unknown | Kind::WrongStyle | Kind::Dup) && !mentions(&x.msg, e.name.as_ref().unwrap()) {
        rec.find("the message does not name the parameter", s, &[&text], show_m(&m), show_res(&i));
    }
}
/// 1: one insertion, deletion or replacement; 2: swap of two neighbours
fn close(a: &str, b: &str) -> Option<usize> {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    if a.len() == b.len() {
        let d: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
        return match d[..] {
            [_] => Some(1),
            [i, j] if i + 1 == j && a[i] == b[j] && a[j] == b[i] => Some(2),
            _ => None,
        };
    }
    let (s, l) = if a.len() < b.len() { (&a, &b) } else { (&b, &a) };
    if s.len() + 1 != l.len() {
        return None;
    }
    (0..l.len())
        .any(|i| {
            let mut x = l.clone();
            x.remove(i);
            x == *s
        })
        .then_some(1)
}
fn c14(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let sm = s.sm();
    let mut l = gen_list(&cx.t, sm, r, 2);
    let named = sm.named();
    let base = sm.fields[*r.pick(&named)].name.clone().unwrap();
    let name = match r.below(10) {
        0 => r.pick(IDENTS).to_string(),
        1 => format!("r#{}", near(&base, r).trim_start_matches("r#")),
        _ => near(&base, r),
    };
    if !is_ident(&name) || sm.fields.iter().any(|f| f.name.as_deref() == Some(&name)) {
        return;
    }
    let st = *r.pick(&STYLES);
    let mut toks = vec![id(&name)];
    match st {
        Style::Flag => {}
        Style::Value => toks.extend([p("="), gen_int(r)]),
        Style::Args => toks.push(paren(vec![gen_int(r)])),
    }
    let at = r.range(l.first_named(), l.args.len());
    l.args.insert(at, Arg { toks, kind: AKind::Other });
    let text = render(&l.toks(), layout(r));
    let m = cx.model(s, &text, false);
    let Err(e) = &m.res else { return };
    if e.kind != Kind::Unknown || e.name.as_deref() != Some(&name) {
        return;
    }
    let i = cx.imp(rec, s, &text, false);
    let Err(x) = &i.res else { return };
    if x.msg.starts_with(PANIC) || !mentions(&x.msg, &name) {
        return;
    }
    let near: Vec<(&String, usize)> = e.declared.iter().filter_map(|d| close(d, &name).map(|c| (d, c))).collect();
    let sug = suggestion(&x.msg);
    if !near.is_empty() || sug.is_some() {
        rec.nontrivial(s, &text);
        rec.count(format!("near names {}", near.len().min(4)));
    }
    rec.count(if sug.is_some() { "suggested" } else { "no suggestion" });
    match &sug {
        Some(g) => match near.iter().find(|(d, _)| *d == g) {
            None => rec.find("a name that is not close is suggested", s, &[&text], format!("one of {near:?} or none"), show_res(&i)),
            Some((_, c)) => {
                if near.iter().any(|(d, c2)| *d != g && c2 <= c) {
                    rec.find("a name is suggested although another one is as close", s, &[&text], format!("{near:?}"), show_res(&i));
                }
            }
        },
        None => {
            if near.len() == 1 {
                rec.find("the only close name is not suggested", s, &[&text], format!("{near:?}"), show_res(&i));
            }
        }
    }
}
fn suggestion(msg: &str) -> Option<String> {
    let k = msg.to_lowercase().find("help")?;
    let h = &msg[msg.char_indices().map(|x| x.0).find(|&x| x >= k)?..];
    let a = h.find('`')?;
    let b = h[a + 1..].find('`')?;
    Some(h[a + 1..a + 1 + b].to_string())
}
pub fn hostile_text(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) -> String {
    let mut v = match r.below(20) {
        0..=4 => {
            rec.count("soup");
            let n = *r.pick(&[2, 5, 10, 30]);
            soup(r, n, 4)
        }
        5 => {
            rec.count("long");
            let n = *r.pick(&[200, 1000, 3000]);
            if s.is_sm() {
                let mut v = vec![];
                let a = make_list(&cx.t, s.sm(), Ambig, r, 0);
                for k in 0..n {
                    if a.args.is_empty() || r.pct(30) {
                        v.extend(if r.pct(50) { vec![id(&format!("n{k}")), p("="), gen_int(r)] } else { vec![gen_int(r)] });
                    } else {
                        v.extend(r.pick(&a.args).toks.clone());
                    }
                    v.push(p(","));
                }
                v
            } else {
                let mut v = gen_pt(&cx.t, s.pt(), r, 0, None);
                let n = n.min(40000 / (count(&v) + 1));
                let one = v.clone();
                for _ in 0..n {
                    v.extend(one.iter().cloned());
                }
                v
            }
        }
        6 => {
            rec.count("deep");
            let n = *r.pick(&[10, 40, 120]);
            let mut v = soup(r, 3, 1);
            for _ in 0..n {
                v = vec![Tok::G(*r.pick(&['(', '[', '{', 'N']), v)];
                if r.pct(30) {
                    v.insert(0, soup_tok(r, 0));
                }
                if r.pct(30) {
                    v.push(soup_tok(r, 0));
                }
            }
            v
        }
        7 if s.is_sm() => {
            rec.count("odd names");
            let mut l = gen_list(&cx.t, s.sm(), r, 0);
            for _ in 0..r.range(1, 4) {
                let name = match r.below(7) {
                    0 => "x".repeat(*r.pick(&[1, 255, 5000])),
                    1 => odd_name(r),
                    2 => r.pick(&["_", "__", "r#try", "é", "名", "𝒳", "ß"]).to_string(),
                    3 => r.pick(KEYWORDS).to_string(),
                    4 => {
                        let named = s.sm().named();
                        if named.is_empty() {
                            "q".into()
                        } else {
                            // exactly one longer / shorter than a declared name
                            let b = s.sm().fields[*r.pick(&named)].name.clone().unwrap();
                            near(&b, r)
                        }
                    }
                    5 => {
                        let named = s.sm().named();
                        if named.is_empty() {
                            "q".into()
                        } else {
                            let b = s.sm().fields[*r.pick(&named)].name.clone().unwrap();
                            let c = b.chars().next().unwrap();
                            let n = b.chars().count();
                            c.to_string().repeat(r.range(1, n + 2))
                        }
                    }
                    _ => foreign_name(s.sm(), r),
                };
                if is_ident(&name) {
                    let mut toks = vec![id(&name)];
                    toks.extend(any_value(*r.pick(&STYLES), r));
                    let at = r.below(l.args.len() + 1);
                    l.args.insert(at, Arg { toks, kind: AKind::Other });
                }
            }
            l.toks()
        }
        _ => {
            rec.count("mutated");
            let mut v = if s.is_sm() {
                let st = *r.pick(&[Conform, Unknown, WrongStyle, Dup, Missing, Surplus, Late, Comma, Value, Ambig, NameVar, RestOnly, Omit]);
                make_toks(&cx.t, s.sm(), st, r).1
            } else {
                gen_pt(&cx.t, s.pt(), r, 0, None)
            };
            if !s.deep.is_empty() && r.pct(40) {
                v = deepen(s, v, r);
            }
            for _ in 0..r.below(6) {
                mutate_tokens(&mut v, r);
            }
            v
        }
    };
    if count(&v) > 60000 {
        v.truncate(100);
    }
    render(&v, layout(r))
}
fn c15(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let text = hostile_text(cx, s, r, rec);
    if s.e_parse(cx) {
        let partial = r.pct(20);
        rec.panicked = None;
        let i = cx.imp(rec, s, &text, partial);
        if text.trim() != "" {
            rec.nontrivial(s, &text);
        }
        if let Err(e) = &i.res {
            if let Some(p) = rec.panicked.take() {
                rec.find("the parser panics", s, &[&text], "Ok or a syn::Error".into(), p);
            } else if e.msg.trim().is_empty() || e.n == 0 || !e.compile_error {
                rec.find("the error has no message", s, &[&text], "a non-empty message".into(), format!("{e:?}"));
            }
        }
    }
}
impl Shape {
    fn e_parse(&self, cx: &Cx) -> bool {
        cx.e[&self.id].parse.is_some()
    }
}
// ------------------------------------------------------------------ Parse / ToTokens
pub fn pt_text(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) -> String {
    let pt = s.pt();
    let mut v = gen_pt(&cx.t, pt, r, 0, None);
    if !s.deep.is_empty() && r.pct(40) {
        rec.count("nested many levels deep");
        v = deepen(s, v, r);
    }
    let what = match r.below(20) {
        0..=7 => "conforming",
        8..=13 => {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                mutate_tokens(&mut v, r);
            }
            "mutated"
        }
        14 => {
            v.truncate(r.below(v.len() + 1));
            "truncated"
        }
        15 | 16 => {
            let mut w = if r.pct(50) { gen_pt(&cx.t, pt, r, 0, None) } else { soup(r, 3, 2) };
            if w.is_empty() {
                w.push(gen_int(r));
            }
            v.extend(w);
            "extended"
        }
        17 => {
            // the head of one variant and the tail of another
            let w = gen_pt(&cx.t, pt, r, 0, None);
            let k = r.below(v.len() + 1);
            v.truncate(k);
            v.extend(w.into_iter().skip(k));
            "spliced"
        }
        18 => {
            delim_damage(&mut v, r);
            "delimiter damage"
        }
        _ => {
            v = soup(r, 6, 3);
            "soup"
        }
    };
    rec.count(what);
    render(&v, layout(r))
}
fn delim_damage(v: &mut Vec<Tok>, r: &mut Rng) {
    let gs: Vec<usize> = (0..v.len()).filter(|&i| matches!(v[i], Tok::G(..))).collect();
    if gs.is_empty() {
        mutate_tokens(v, r);
        return;
    }
    let g = *r.pick(&gs);
    let next = v.get(g + 1).cloned();
    let mut take_next = false;
    if let Tok::G(c, inner) = &mut v[g] {
        match r.below(7) {
            0 => *c = *r.pick(&['(', '[', '{', 'N']),
            1 => inner.push(soup_tok(r, 1)),
            2 => {
                inner.pop();
            }
            3 if next.is_some() => {
                // the token after the group moves into it
                inner.push(next.unwrap());
                take_next = true;
            }
            4 => delim_damage(inner, r),
            5 => {
                let x = inner.clone();
                inner.extend(x);
            }
            _ => {
                if let Some(x) = inner.pop() {
                    v.insert(g + 1, x);
                }
            }
        }
    }
    if take_next {
        v.remove(g + 1);
    }
}
fn pt_case(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let text = pt_text(cx, s, r, rec);
    if !text.trim().is_empty() {
        rec.nontrivial(s, &text);
    }
    let what = match cx.prop.as_str() {
        "C17" => "the fields are not parsed one after the other",
        "C18" => "the first variant that parses is not taken",
        "C19" => "peek does not commit as documented",
        "C20" => "delimiters do not enclose the fields as declared",
        _ => "any/terminated do not parse as documented",
    };
    let m = exact(cx, s, &text, true, Cmp::Full, rec, what);
    if let Ok(Node::Var(i, _)) = &m.res {
        rec.count(format!("variant {}", i.min(&9)));
    }
    if !m.rest.is_empty() {
        rec.count("tokens left to the caller");
    }
    if r.pct(50) {
        exact(cx, s, &text, false, Cmp::Full, rec, what);
    }
}
fn c22(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let Some(f) = cx.e[&s.id].make else { return };
    let nv = s.pt().variants.len();
    let v = r.below(nv.max(1));
    let mut g = if r.pct(60) { Mk::forced(r.clone(), v) } else { Mk::new(r.clone()) };
    rec.evals += 1;
    let o = match catch_unwind(AssertUnwindSafe(|| f(&mut g))) {
        Ok(o) => o,
        Err(p) => {
            let p = panic_msg(p);
            if p.starts_with("harness") {
                panic!("{p}");
            }
            rec.find("to_tokens panics", s, &[], "tokens".into(), p);
            return;
        }
    };
    let mut want = vec![];
    print_model(&cx.t, s, &o.node, &mut want);
    if !want.is_empty() {
        rec.nontrivial(s, &texts(&want));
    }
    if let Node::Var(i, _) = &o.node {
        rec.count(format!("variant {}", i.min(&9)));
    }
    let show = |v: &[FTok]| v.iter().map(|t| format!("{}{}@{}", t.t, if t.joint { "~" } else { "" }, show_pos(t.s))).collect::<Vec<_>>().join(" ");
    if texts(&want) != texts(&o.out) {
        rec.find("to_tokens does not emit the fields as declared", s, &[&o.node.show()], show(&want), show(&o.out));
    } else if want != o.out {
        rec.find("to_tokens changes spans or spacing", s, &[&o.node.show()], show(&want), show(&o.out));
    } else {
        let mut p = o.prefix.clone();
        p.extend(want.iter().cloned());
        if o.after != p {
            rec.find("to_tokens disturbs what was already in the stream", s, &[&o.node.show()], show(&p), show(&o.after));
        } else if o.again != want {
            rec.find("printing twice differs", s, &[&o.node.show()], show(&want), show(&o.again));
        }
    }
}
fn c23(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    if cx.e[&s.id].make.is_none() {
        return;
    }
    let text = pt_text(cx, s, r, rec);
    let input = flatten(lex(&text).unwrap());
    if input.iter().any(|t| t.t == "<N") {
        return;
    }
    REPARSE.set(true);
    let i = cx.imp(rec, s, &text, false);
    REPARSE.set(false);
    let Ok(n) = &i.res else { return };
    let m = cx.model(s, &text, false);
    let pos = |v: &[FTok]| v.iter().map(|t| (t.s, t.e)).collect::<Vec<_>>();
    let joints = |v: &[FTok]| v.iter().map(|t| t.joint).collect::<Vec<_>>();
    let mut spans_kept = true;
    let mut spacing_kept = true;
    if let Ok(mn) = &m.res {
        let mut want = vec![];
        print_model(&cx.t, s, mn, &mut want);
        // values whose own parser and printer are not inverse say nothing about the derives
        if texts(&want) != texts(&input) {
            rec.count("skipped: a field's own type does not print what it parsed");
            return;
        }
        spans_kept = pos(&want) == pos(&input);
        spacing_kept = joints(&want) == joints(&input);
    }
    rec.nontrivial(s, &text);
    let Some(p) = &i.printed else { return };
    if texts(p) != texts(&input) {
        rec.find("printing a parsed value does not give the tokens back", s, &[&text], texts(&input), texts(p));
    } else if spans_kept && pos(p) != pos(&input) {
        rec.find("printing a parsed value changes spans", s, &[&text], format!("{:?}", pos(&input)), format!("{:?}", pos(p)));
    } else if spacing_kept && joints(p) != joints(&input) {
        rec.find("printing a parsed value changes spacing", s, &[&text], format!("{:?}", joints(&input)), format!("{:?}", joints(p)));
    } else {
        match &i.reparsed {
            Some(Ok(x)) if same(x, n, Cmp::NoPos) => {}
            Some(x) => rec.find("parsing the printed tokens gives another value", s, &[&text], n.show(), format!("{:?}", x.as_ref().map(|x| x.show()))),
            None => {}
        }
    }
}
fn c25(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    if !s.is_sm() && cx.e[&s.id].make.is_some() && r.pct(30) {
        c22(cx, s, r, rec);
        return;
    }
    let text = any_text(cx, s, r, rec);
    if !text.trim().is_empty() {
        rec.nontrivial(s, &text);
    }
    let partial = !s.is_sm() && r.pct(40);
    exact(cx, s, &text, partial, Cmp::Full, rec, if cx.prop == "C26" { "a type in a hostile scope behaves differently" } else { "an instance of a generic type behaves differently" });
}
fn c30(cx: &Cx, s: &Shape, r: &mut Rng, rec: &mut Rec) {
    let Some(e) = &s.embed else {
        let text = any_text(cx, s, r, rec);
        let m = exact(cx, s, &text, false, Cmp::Full, rec, "a nested derived type behaves differently");
        if m.trace.nested > 0 {
            rec.nontrivial(s, &text);
            rec.count("nested parsers entered by the model");
        }
        return;
    };
    // the template's hole is the complete content of a group or the end of the input
    let inner = cx.t.get(e.get("inner").s());
    let body = {
        let mut r2 = r.clone();
        let text = any_text(cx, inner, &mut r2, rec);
        *r = r2;
        text
    };
    let tpl = e.get("template").s().to_string();
    let outer_text = tpl.replace("@@", &body);
    let i = cx.imp(rec, inner, &body, false);
    let o = cx.imp(rec, s, &outer_text, false);
    rec.nontrivial(s, &outer_text);
    rec.count(if i.res.is_ok() { "inner accepts" } else { "inner rejects" });
    match (&i.res, &o.res) {
        (Ok(a), Ok(b)) => {
            let mut n = b;
            for st in e.get("path").a() {
                n = step(n, st.s()).unwrap_or(&Node::None);
            }
            if !same(a, n, Cmp::NoPos) {
                rec.find("a derived type gives another value when nested", s, &[&outer_text], format!("inner alone: {}", a.show()), show_res(&o));
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => rec.find("a nested derived type rejects what it accepts alone", s, &[&outer_text, &body], show_res(&i), show_res(&o)),
        (Err(_), Ok(_)) => rec.find("a nested derived type accepts what it rejects alone", s, &[&outer_text, &body], show_res(&i), show_res(&o)),
    }
}
fn step<'a>(n: &'a Node, st: &str) -> Option<&'a Node> {
    match n {
        Node::Some(x) | Node::NV(_, x) | Node::NA(_, x) if st == "in" => Some(x),
        Node::Struct(v) | Node::List(v) | Node::Punct(v, _) | Node::Var(_, v) => v.get(st.parse::<usize>().ok()?),
        Node::Map(m) => m.get(st),
        _ => None,
    }
}
