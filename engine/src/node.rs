//! Canonical observed values ("what every field holds"), with source positions.
use crate::tok::*;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use structmeta::{Flag, NameArgs, NameValue};
use syn::punctuated::Punctuated;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Toks(Vec<FTok>),
    Bool(bool),
    Flag(Option<Pos2>),
    None,
    Some(Box<Node>),
    List(Vec<Node>),
    Map(BTreeMap<String, Node>),
    Struct(Vec<Node>),
    Var(usize, Vec<Node>),
    NV(Pos2, Box<Node>),
    NA(Pos2, Box<Node>),
    Delim(char, Pos2, Pos2),
    /// elements, separators (trailing one allowed)
    Punct(Vec<Node>, Vec<Node>),
}
/// start and end of a span
pub type Pos2 = (Pos, Pos);
pub fn pos2(s: Span) -> Pos2 {
    (start(s), end(s))
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cmp {
    /// everything
    Full,
    /// values with their positions, but not the positions of names (Flag, NameValue, NameArgs)
    NoNames,
    /// no positions at all
    NoPos,
}
pub fn same(a: &Node, b: &Node, c: Cmp) -> bool {
    use Node::*;
    let all = |x: &Vec<Node>, y: &Vec<Node>| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y, c));
    match (a, b) {
        (Toks(x), Toks(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|(x, y)| x.t == y.t && (c == Cmp::NoPos || (x.s == y.s && x.e == y.e)) && (c != Cmp::Full || x.joint == y.joint))
        }
        (Bool(x), Bool(y)) => x == y,
        (Flag(x), Flag(y)) => {
            if c == Cmp::Full {
                x == y
            } else {
                x.is_some() == y.is_some()
            }
        }
        (None, None) => true,
        (Some(x), Some(y)) => same(x, y, c),
        (List(x), List(y)) | (Struct(x), Struct(y)) => all(x, y),
        (Map(x), Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, x), (l, y))| k == l && same(x, y, c))
        }
        (Var(i, x), Var(j, y)) => i == j && all(x, y),
        (NV(s, x), NV(t, y)) | (NA(s, x), NA(t, y)) => (c != Cmp::Full || s == t) && same(x, y, c),
        (Delim(k, o, e), Delim(l, p, f)) => k == l && (c == Cmp::NoPos || (o == p && e == f)),
        (Punct(x, s), Punct(y, t)) => all(x, y) && all(s, t),
        _ => false,
    }
}
impl Node {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, o: &mut String) {
        use Node::*;
        fn seq(o: &mut String, l: &str, v: &[Node], r: &str) {
            o.push_str(l);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                x.show_into(o);
            }
            o.push_str(r);
        }
        match self {
            Toks(v) => {
                o.push('`');
                o.push_str(&texts(v));
                o.push('`');
                if let (Option::Some(a), Option::Some(b)) = (v.first(), v.last()) {
                    o.push_str(&format!("@{}-{}", show_pos(a.s), show_pos(b.e)));
                }
            }
            Bool(b) => o.push_str(&b.to_string()),
            Flag(Option::None) => o.push_str("Flag(unset)"),
            Flag(Option::Some(p)) => o.push_str(&format!("Flag@{}", show_pos(p.0))),
            None => o.push_str("None"),
            Some(x) => {
                o.push_str("Some(");
                x.show_into(o);
                o.push(')');
            }
            List(v) => seq(o, "[", v, "]"),
            Struct(v) => seq(o, "{", v, "}"),
            Map(m) => {
                o.push_str("map{");
                for (k, v) in m {
                    o.push_str(&format!("{k:?}: "));
                    v.show_into(o);
                    o.push_str(", ");
                }
                o.push('}');
            }
            Var(i, v) => seq(o, &format!("variant{i}{{"), v, "}"),
            NV(p, x) => {
                o.push_str(&format!("NameValue@{}(", show_pos(p.0)));
                x.show_into(o);
                o.push(')');
            }
            NA(p, x) => {
                o.push_str(&format!("NameArgs@{}(", show_pos(p.0)));
                x.show_into(o);
                o.push(')');
            }
            Delim(c, a, b) => o.push_str(&format!("{c}@{}-{}", show_pos(a.0), show_pos(b.1))),
            Punct(e, s) => {
                seq(o, "punctuated[", e, "]");
                seq(o, "sep[", s, "]");
            }
        }
    }
    /// number of leaf values
    pub fn leaves(&self) -> usize {
        use Node::*;
        match self {
            Toks(_) | Bool(_) | Flag(_) | None | Delim(..) => 1,
            Some(x) | NV(_, x) | NA(_, x) => x.leaves(),
            List(v) | Struct(v) | Var(_, v) => v.iter().map(|x| x.leaves()).sum(),
            Map(m) => m.values().map(|x| x.leaves()).sum(),
            Punct(v, s) => v.iter().map(|x| x.leaves()).sum::<usize>() + s.len(),
        }
    }
}

pub trait Obs {
    fn obs(&self) -> Node;
}
impl Obs for bool {
    fn obs(&self) -> Node {
        Node::Bool(*self)
    }
}
impl Obs for Flag {
    fn obs(&self) -> Node {
        Node::Flag(self.span.map(pos2))
    }
}
impl<T: Obs> Obs for NameValue<T> {
    fn obs(&self) -> Node {
        Node::NV(pos2(self.name_span), Box::new(self.value.obs()))
    }
}
impl<T: Obs> Obs for NameArgs<T> {
    fn obs(&self) -> Node {
        Node::NA(pos2(self.name_span), Box::new(self.args.obs()))
    }
}
impl<T: Obs> Obs for Option<T> {
    fn obs(&self) -> Node {
        match self {
            Some(x) => Node::Some(Box::new(x.obs())),
            None => Node::None,
        }
    }
}
impl<T: Obs> Obs for Vec<T> {
    fn obs(&self) -> Node {
        Node::List(self.iter().map(|x| x.obs()).collect())
    }
}
impl<T: Obs> Obs for Box<T> {
    fn obs(&self) -> Node {
        (**self).obs()
    }
}
impl<T: Obs> Obs for HashMap<String, T> {
    fn obs(&self) -> Node {
        Node::Map(self.iter().map(|(k, v)| (k.clone(), v.obs())).collect())
    }
}
impl<T: Obs, P: Obs> Obs for Punctuated<T, P> {
    fn obs(&self) -> Node {
        let mut e = vec![];
        let mut s = vec![];
        for pair in self.pairs() {
            let (x, y) = pair.into_tuple();
            e.push(x.obs());
            if let Some(y) = y {
                s.push(y.obs());
            }
        }
        Node::Punct(e, s)
    }
}
impl Obs for syn::token::Paren {
    fn obs(&self) -> Node {
        Node::Delim('(', pos2(self.span.open()), pos2(self.span.close()))
    }
}
impl Obs for syn::token::Bracket {
    fn obs(&self) -> Node {
        Node::Delim('[', pos2(self.span.open()), pos2(self.span.close()))
    }
}
impl Obs for syn::token::Brace {
    fn obs(&self) -> Node {
        Node::Delim('{', pos2(self.span.open()), pos2(self.span.close()))
    }
}
impl Obs for syn::MacroDelimiter {
    fn obs(&self) -> Node {
        match self {
            syn::MacroDelimiter::Paren(x) => x.obs(),
            syn::MacroDelimiter::Brace(x) => x.obs(),
            syn::MacroDelimiter::Bracket(x) => x.obs(),
        }
    }
}
pub fn toks_of(x: &impl ToTokens) -> Node {
    Node::Toks(flatten(x.to_token_stream()))
}
