//! C29: laws of Flag, NameValue and NameArgs.
use crate::ctx::*;
use crate::rng::*;
use crate::shape::*;
use crate::tok::*;
use proc_macro2::Span;
use structmeta::{Flag, NameArgs, NameValue};

fn dummy() -> Shape {
    Shape {
        id: "api".into(),
        def: Def::Sm(Sm { filter: false, fields: vec![] }),
        tags: vec![],
        twin: None,
        decl: "structmeta::{Flag, NameValue, NameArgs}".into(),
        embed: None, deep: vec![],
    }
}
/// spans of the tokens of a small source text, so that they can be told apart
fn spans() -> Vec<Span> {
    lex("\n a bb\n ccc (d e) \"s\" 12 + f").unwrap().into_iter().map(|t| t.span()).chain([Span::call_site()]).collect()
}
fn flag(k: usize, sp: &[Span], how: usize) -> Flag {
    if k == 0 {
        return match how % 3 {
            0 => Flag::NONE,
            1 => Flag::default(),
            _ => Flag { span: None },
        };
    }
    Flag { span: Some(sp[(k - 1) % sp.len()]) }
}
fn key(f: &Flag) -> Option<(Pos, Pos)> {
    f.span.map(|s| (start(s), end(s)))
}
fn want_or(a: &Flag, b: &Flag) -> Option<(Pos, Pos)> {
    key(a).or(key(b))
}
fn nv<T>(s: Span, v: T) -> NameValue<T> {
    NameValue { name_span: s, value: v }
}
fn na<T>(s: Span, v: T) -> NameArgs<T> {
    NameArgs { name_span: s, args: v }
}
#[derive(Clone, Debug)]
struct Odd(i32);
/// equality that is not structural: used to see that `==` is the value's own
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.0 % 10 == o.0 % 10
    }
}
/// zero-sized and never equal, not even to itself
#[derive(Clone, Debug)]
struct Never;
impl PartialEq for Never {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
/// neither reflexive nor symmetric, of any size
#[derive(Clone, Debug)]
struct Less<const N: usize>(i32, [u8; N]);
impl<const N: usize> PartialEq for Less<N> {
    fn eq(&self, o: &Self) -> bool {
        self.0 < o.0
    }
}
/// counts how often it is compared
#[derive(Clone, Debug)]
struct Seen(i32, std::rc::Rc<std::cell::Cell<u32>>);
impl PartialEq for Seen {
    fn eq(&self, o: &Self) -> bool {
        self.1.set(self.1.get() + 1);
        self.0 == o.0
    }
}
/// the wrappers say what the value says
fn own<T: PartialEq + Clone>(s1: Span, s2: Span, a: T, b: T) -> bool {
    let (e, f, g) = (a == b, b == a, a.clone() == a.clone());
    let (x, y) = (nv(s1, a.clone()), nv(s2, b.clone()));
    let (z, w) = (na(s1, a.clone()), na(s2, b.clone()));
    // an object compared with itself is asked like any other
    let (x1, z1) = (&x, &z);
    let h = a == *(&a);
    let selfs = (*x1 == x) == h && (*x1 != x) != h && (*z1 == z) == h && (*z1 != z) != h;
    let vs = [nv(s1, a.clone())];
    let selfs = selfs && (vs.iter().position(|q| *q == vs[0]).is_some()) == h;
    selfs && (x == y) == e && (y == x) == f && (x != y) != e && (y != x) != f && (x == x.clone()) == g
        && (z == w) == e && (w == z) == f && (z != w) != e && (w != z) != f && (z == z.clone()) == g
}
pub fn case(_cx: &Cx, c: u64, rec: &mut Rec) {
    rec.case = c;
    proc_macro2::extra::invalidate_current_thread_spans();
    let s = dummy();
    let sp = spans();
    let n = sp.len() + 1;
    let mut r = Rng::new(c);
    // every combination of three flags is visited in turn
    let (i, j, k) = ((c as usize) % n, (c as usize / n) % n, (c as usize / n / n) % n);
    let how = r.below(9);
    let (a, b, d) = (flag(i, &sp, how), flag(j, &sp, how / 3), flag(k, &sp, how + 1));
    let text = format!("flags {i} {j} {k} (0 = unset), variant {how}");
    rec.evals += 1;
    rec.count(format!("set flags {}", [i, j, k].iter().filter(|x| **x > 0).count()));
    rec.nontrivial(&s, &text);
    let mut bad = |ok: bool, what: &str| {
        if !ok {
            rec.find(what, &s, &[&text], "law holds".into(), "law violated".into());
        }
    };
    for f in [&a, &b, &d] {
        bad(f.value() == f.span.is_some(), "value() is not whether the flag is set");
        bad(*f == f.clone(), "a clone differs");
        bad(key(&f.clone()) == key(f), "a clone has another span");
        bad(Flag::from(f.value()).value() == f.value(), "From<bool> and value() are not inverse");
        bad(Flag::from(f.value()) == *f, "From<bool>(value()) is not equal");
        bad((f.clone() | Flag::NONE) == *f && (Flag::NONE | f.clone()) == *f, "NONE is not neutral");
        bad(key(&(f.clone() | Flag::NONE)) == key(f) && key(&(Flag::NONE | f.clone())) == key(f), "| NONE changes the span");
    }
    bad(!Flag::NONE.value() && Flag::NONE.span.is_none() && Flag::NONE == Flag::default(), "NONE / Default is set");
    bad(!Flag::default().value() && Flag::default().span.is_none(), "Default is set");
    bad(!Flag::from(false).value() && Flag::from(true).value(), "From<bool> is wrong");
    bad((a == b) == (a.value() == b.value()), "== is not equality of value()");
    bad((a != b) == (a.value() != b.value()), "!= is not inequality of value()");
    bad((a == b) == (b == a), "== is not symmetric");
    let or = a.clone() | b.clone();
    bad(or.value() == (a.value() || b.value()), "| is not boolean or");
    bad(key(&or) == want_or(&a, &b), "| does not keep the span of the leftmost set operand");
    let mut ora = a.clone();
    ora |= b.clone();
    bad(ora.value() == or.value(), "|= and | disagree");
    bad(key(&ora) == want_or(&a, &b), "|= does not keep the span of the leftmost set operand");
    let l = (a.clone() | b.clone()) | d.clone();
    let m = a.clone() | (b.clone() | d.clone());
    bad(l == m && key(&l) == key(&m), "| is not associative");
    bad(key(&l) == want_or(&or, &d), "chained | does not keep the leftmost span");
    let mut x = a.clone();
    x |= b.clone();
    x |= d.clone();
    bad(key(&x) == key(&l) && x == l, "chained |= and | disagree");
    // NameValue / NameArgs
    let (v, w) = (r.below(40) as i32, r.below(40) as i32);
    let (s1, s2) = (sp[r.below(sp.len())], sp[r.below(sp.len())]);
    bad((nv(s1, v) == nv(s2, w)) == (v == w), "NameValue equality is not equality of values");
    bad((nv(s1, v) != nv(s2, w)) == (v != w), "NameValue inequality is not inequality of values");
    bad(nv(s1, v) == nv(s2, v), "NameValue equality depends on the span");
    bad(nv(s1, Odd(v)) == nv(s2, Odd(v + 10)) && nv(s1, Odd(v)) != nv(s1, Odd(v + 1)), "NameValue equality is not the value's own");
    bad((na(s1, v) == na(s2, w)) == (v == w), "NameArgs equality is not equality of values");
    bad((na(s1, v) != na(s2, w)) == (v != w), "NameArgs inequality is not inequality of values");
    bad(na(s1, v) == na(s2, v), "NameArgs equality depends on the span");
    bad(na(s1, Odd(v)) == na(s2, Odd(v + 10)) && na(s1, Odd(v)) != na(s1, Odd(v + 1)), "NameArgs equality is not the value's own");
    let (cv, ca) = (nv(s1, vec![v, w]).clone(), na(s1, vec![v, w]).clone());
    bad(cv == nv(s1, vec![v, w]) && cv.value == [v, w] && start(cv.name_span) == start(s1) && end(cv.name_span) == end(s1), "a clone of a NameValue differs");
    bad(ca == na(s1, vec![v, w]) && ca.args == [v, w] && start(ca.name_span) == start(s1) && end(ca.name_span) == end(s1), "a clone of a NameArgs differs");
    bad(nv(s1, f64::NAN) != nv(s1, f64::NAN) && na(s1, f64::NAN) != na(s1, f64::NAN), "equality ignores the value's own equality");
    bad(own(s1, s2, Never, Never) && own(s1, s2, (), ()) && own(s1, s2, [0u8; 0], [0u8; 0]), "equality of zero-sized values is not their own");
    bad(own(s1, s2, Less(v, []), Less(w, [])) && own(s1, s2, Less(v, [1; 300]), Less(w, [2; 300])) && own(s1, s2, Less(v, [1; 70000]), Less(w, [2; 70000])) && own(s1, s2, [f64::NAN; 20], [1.0; 20]) && own(s1, s2, [f32::NAN; 1], [f32::NAN; 1]) && own(s1, s2, Less(v, [1]), Less(v, [1])), "equality is not the value's own, in that order");
    bad(own(s1, s2, v as u8, w as u8) && own(s1, s2, v == w, w > 20) && own(s1, s2, Box::new(v), Box::new(w)) && own(s1, s2, Some(Never), None) && own(s1, s2, (v, f32::NAN), (w, 1.0)) && own(s1, s2, "a", "b") && own(s1, s2, &v, &w)
        && own(s1, s2, format!("{v}"), format!("{w}")) && own(s1, s2, nv(s1, v), nv(s2, w)) && own(s1, s2, vec![na(s1, f64::NAN)], vec![]), "equality is not the value's own");
    let seen = std::rc::Rc::new(std::cell::Cell::new(0));
    let (q1, q2) = (Seen(v, seen.clone()), Seen(w, seen.clone()));
    let e = (nv(s1, q1.clone()) == nv(s2, q2.clone()), na(s1, q1.clone()) == na(s1, q2.clone()));
    bad(e == (v == w, v == w) && seen.get() == 2, "equality does not ask the value once");
    // spans of values obtained by parsing count as little as hand-made ones
    let z = nv(s1, flag(i, &sp, how));
    bad((z == nv(s2, flag(j, &sp, how))) == (a.value() == b.value()), "NameValue<Flag> equality");
}
