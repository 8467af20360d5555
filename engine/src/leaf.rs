//! Value types used for fields: parsers (syn's own), peeking, and token generators.
use crate::node::*;
use crate::rng::Rng;
use crate::tok::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::Token;
use syn::ext::IdentExt;
use syn::parse::{Parse, ParseStream};

pub mod kw {
    syn::custom_keyword!(alpha);
    syn::custom_keyword!(beta);
    syn::custom_keyword!(gamma);
    impl crate::node::Obs for alpha {
        fn obs(&self) -> crate::node::Node {
            crate::node::toks_of(self)
        }
    }
    impl crate::node::Obs for beta {
        fn obs(&self) -> crate::node::Node {
            crate::node::toks_of(self)
        }
    }
    impl crate::node::Obs for gamma {
        fn obs(&self) -> crate::node::Node {
            crate::node::toks_of(self)
        }
    }
}
/// Two integers, one after the other.
#[derive(Clone, PartialEq, Debug)]
pub struct Pair(pub syn::LitInt, pub syn::LitInt);
impl Parse for Pair {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Pair(input.parse()?, input.parse()?))
    }
}
impl ToTokens for Pair {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t);
        self.1.to_tokens(t);
    }
}
/// Two integers with a comma between them.
#[derive(Clone, PartialEq, Debug)]
pub struct CommaPair(pub syn::LitInt, pub Token![,], pub syn::LitInt);
impl Parse for CommaPair {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(CommaPair(input.parse()?, input.parse()?, input.parse()?))
    }
}
impl ToTokens for CommaPair {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t);
        self.1.to_tokens(t);
        self.2.to_tokens(t);
    }
}
/// An integer between parentheses; what follows it there is not looked at (syn reports it at the end of the whole parse).
#[derive(Clone, PartialEq, Debug)]
pub struct Leaky(pub syn::token::Paren, pub syn::LitInt);
impl Parse for Leaky {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let content;
        let p = syn::parenthesized!(content in input);
        Ok(Leaky(p, content.parse()?))
    }
}
impl ToTokens for Leaky {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.surround(t, |t| self.1.to_tokens(t));
    }
}
/// An identifier; if there is none, an error made of two.
#[derive(Clone, PartialEq, Debug)]
pub struct Multi(pub syn::Ident);
impl Parse for Multi {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        match input.parse() {
            Ok(x) => Ok(Multi(x)),
            Err(mut e) => {
                let e2 = input.parse::<proc_macro2::TokenTree>().map_or_else(|e| e, |t| syn::Error::new_spanned(t, "second"));
                e.combine(e2);
                Err(e)
            }
        }
    }
}
impl ToTokens for Multi {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t);
    }
}
/// Everything up to the next `;` or the end, and that `;`.
#[derive(Clone, PartialEq, Debug)]
pub struct Stmtish(pub Vec<syn::Ident>, pub Option<Token![;]>);
impl Parse for Stmtish {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            if let Some(s) = input.parse()? {
                return Ok(Stmtish(v, Some(s)));
            }
            v.push(input.call(syn::Ident::parse_any)?);
        }
        Ok(Stmtish(v, None))
    }
}
impl ToTokens for Stmtish {
    fn to_tokens(&self, t: &mut TokenStream) {
        for x in &self.0 {
            x.to_tokens(t);
        }
        self.1.to_tokens(t);
    }
}
thread_local! {
    /// parsers of the types below panic while this is set: a user's type that panics
    pub static BOMB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn bomb() {
    if BOMB.get() {
        panic!("bomb");
    }
}
/// Exactly N values of T.
#[derive(Clone, PartialEq, Debug)]
pub struct Arr<T, const N: usize>(pub Vec<T>);
impl<T: Parse, const N: usize> Parse for Arr<T, N> {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        for _ in 0..N {
            v.push(input.parse()?);
        }
        bomb();
        Ok(Arr(v))
    }
}
impl<T: ToTokens, const N: usize> ToTokens for Arr<T, N> {
    fn to_tokens(&self, t: &mut TokenStream) {
        for x in &self.0 {
            x.to_tokens(t);
        }
    }
}
impl<T: Obs, const N: usize> Obs for Arr<T, N> {
    fn obs(&self) -> Node {
        Node::List(self.0.iter().map(|x| x.obs()).collect())
    }
}
/// A value of T, with a lifetime parameter.
#[derive(Clone, PartialEq, Debug)]
pub struct Lt<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);
impl<'a, T: Parse> Parse for Lt<'a, T> {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Lt(input.parse()?, std::marker::PhantomData))
    }
}
impl<'a, T: ToTokens> ToTokens for Lt<'a, T> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<'a, T: Obs> Obs for Lt<'a, T> {
    fn obs(&self) -> Node {
        self.0.obs()
    }
}
/// Number types that need a bound on a constant, or on a lifetime.
pub trait Has {}
pub struct K<const N: usize>;
impl Has for K<1> {}
#[derive(Clone, PartialEq, Debug)]
pub struct Kn<const N: usize>(pub syn::LitInt) where K<N>: Has;
#[derive(Clone, PartialEq, Debug)]
pub struct St<'a>(pub syn::LitInt, pub std::marker::PhantomData<&'a ()>) where 'a: 'static;
impl<const N: usize> Parse for Kn<N> where K<N>: Has {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Kn(input.parse()?))
    }
}
impl<const N: usize> ToTokens for Kn<N> where K<N>: Has {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<const N: usize> Obs for Kn<N> where K<N>: Has {
    fn obs(&self) -> Node {
        self.0.obs()
    }
}
impl<'a> Parse for St<'a> where 'a: 'static {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(St(input.parse()?, std::marker::PhantomData))
    }
}
impl<'a> ToTokens for St<'a> where 'a: 'static {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<'a> Obs for St<'a> where 'a: 'static {
    fn obs(&self) -> Node {
        self.0.obs()
    }
}
/// An identifier, with a type parameter in phantom position.
pub struct Ph<P: ?Sized>(pub syn::Ident, pub std::marker::PhantomData<P>);
impl<P: ?Sized> Clone for Ph<P> {
    fn clone(&self) -> Self {
        Ph(self.0.clone(), std::marker::PhantomData)
    }
}
impl<P: ?Sized> Parse for Ph<P> {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Ph(input.parse()?, std::marker::PhantomData))
    }
}
impl<P: ?Sized> ToTokens for Ph<P> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<P: ?Sized> Obs for Ph<P> {
    fn obs(&self) -> Node {
        self.0.obs()
    }
}
/// Types named like the ones StructMeta recognises, from an unrelated module.
/// Each parses `T` between square brackets (or an integer).
pub mod decoy {
    use super::*;
    macro_rules! decoy1 {
        ($($n:ident),*) => { $(
            pub struct $n<T>(pub T, pub syn::token::Bracket);
            impl<T: Parse> Parse for $n<T> {
                fn parse(input: ParseStream) -> syn::Result<Self> {
                    let content;
                    let b = syn::bracketed!(content in input);
                    Ok($n(content.parse()?, b))
                }
            }
            impl<T: Obs> Obs for $n<T> {
                fn obs(&self) -> Node { Node::Struct(vec![self.1.obs(), self.0.obs()]) }
            }
        )* }
    }
    decoy1!(Option, Vec, NameValue, NameArgs);
    pub struct HashMap<K, T>(pub T, pub syn::token::Bracket, pub ::std::marker::PhantomData<K>);
    impl<K, T: Parse> Parse for HashMap<K, T> {
        fn parse(input: ParseStream) -> syn::Result<Self> {
            let content;
            let b = syn::bracketed!(content in input);
            Ok(HashMap(content.parse()?, b, ::std::marker::PhantomData))
        }
    }
    impl<K, T: Obs> Obs for HashMap<K, T> {
        fn obs(&self) -> Node {
            Node::Struct(vec![self.1.obs(), self.0.obs()])
        }
    }
    macro_rules! decoy0 {
        ($($n:ident),*) => { $(
            #[allow(non_camel_case_types)]
            pub struct $n(pub syn::LitInt);
            impl Parse for $n {
                fn parse(input: ParseStream) -> syn::Result<Self> { Ok($n(input.parse()?)) }
            }
            impl Obs for $n { fn obs(&self) -> Node { toks_of(&self.0) } }
        )* }
    }
    decoy0!(Flag, bool, String, MacroDelimiter);
    /// any sequence of these modules leads to the decoys
    pub mod tree {
        pub use super::{bool, Flag, HashMap, MacroDelimiter, NameArgs, NameValue, Option, String, Vec};
        macro_rules! modules { ($($m:ident)*) => { $(pub mod $m { pub use super::*; })* } }
        modules!(std core alloc option vec collections hash_map string primitive structmeta syn meta my prelude v1 types util args attr inner private helpers exports mac lib options result map);
    }
    pub use self::tree::{std, structmeta};
}

macro_rules! leaf_obs { ($($t:ty),* $(,)?) => { $(impl Obs for $t { fn obs(&self) -> Node { toks_of(self) } })* } }
leaf_obs!(
    syn::LitInt, syn::LitStr, syn::LitBool, syn::LitFloat, syn::LitChar, syn::Lit, syn::Ident, syn::Lifetime, syn::Expr, syn::Type,
    syn::Path, syn::Visibility, Pair, CommaPair, TokenStream, Leaky, Multi, Stmtish,
    syn::parse::Nothing, syn::Meta, syn::Member, syn::Block, syn::Macro, syn::LitByteStr, syn::LitCStr, syn::LitByte, syn::BinOp,
    proc_macro2::TokenTree, proc_macro2::Punct, proc_macro2::Group, proc_macro2::Literal,
    Token![=], Token![,], Token![;], Token![:], Token![+], Token![-], Token![->], Token![=>], Token![::], Token![!], Token![#], Token![?],
    Token![fn], Token![struct], Token![self], Token![mut], Token![if], Token![..], Token![|], Token![<], Token![>], Token![&], Token![.],
);

macro_rules! leaves {
    ($($k:literal => $t:ty),* $(,)?) => {
        pub fn parse_leaf(kind: &str, input: ParseStream) -> syn::Result<Node> {
            match kind {
                $($k => Ok(input.parse::<$t>()?.obs()),)*
                _ => panic!("model: unknown leaf {kind}"),
            }
        }
        pub const LEAVES: &[&str] = &[$($k),*];
    };
}
leaves! {
    "LitInt" => syn::LitInt, "LitStr" => syn::LitStr, "LitBool" => syn::LitBool, "LitFloat" => syn::LitFloat, "LitChar" => syn::LitChar, "Lit" => syn::Lit,
    "Ident" => syn::Ident, "Lifetime" => syn::Lifetime, "Expr" => syn::Expr, "Type" => syn::Type, "Path" => syn::Path,
    "Visibility" => syn::Visibility, "Pair" => Pair, "CommaPair" => CommaPair, "TokenStream" => TokenStream,
    "TokenTree" => proc_macro2::TokenTree, "Punct" => proc_macro2::Punct, "Group" => proc_macro2::Group, "Literal" => proc_macro2::Literal,
    "Leaky" => Leaky, "Multi" => Multi, "Stmtish" => Stmtish, "Nothing" => syn::parse::Nothing, "Meta" => syn::Meta, "Member" => syn::Member, "Block" => syn::Block,
    "Macro" => syn::Macro, "LitByteStr" => syn::LitByteStr, "LitCStr" => syn::LitCStr, "LitByte" => syn::LitByte, "BinOp" => syn::BinOp,
    "Box<LitInt>" => Box<syn::LitInt>, "Box<Expr>" => Box<syn::Expr>,
    "Token![=]" => Token![=], "Token![,]" => Token![,], "Token![;]" => Token![;], "Token![:]" => Token![:], "Token![+]" => Token![+],
    "Token![-]" => Token![-], "Token![->]" => Token![->], "Token![=>]" => Token![=>], "Token![::]" => Token![::], "Token![!]" => Token![!],
    "Token![#]" => Token![#], "Token![?]" => Token![?], "Token![fn]" => Token![fn], "Token![struct]" => Token![struct], "Token![self]" => Token![self],
    "Token![mut]" => Token![mut], "Token![if]" => Token![if], "Token![..]" => Token![..], "Token![|]" => Token![|], "Token![<]" => Token![<],
    "Token![>]" => Token![>], "Token![&]" => Token![&], "Token![.]" => Token![.],
    "Option<Token![,]>" => Option<Token![,]>, "Option<Token![mut]>" => Option<Token![mut]>, "Option<Token![;]>" => Option<Token![;]>, "Option<LitInt>" => Option<syn::LitInt>, "Option<Ident>" => Option<syn::Ident>,
    "kw::alpha" => kw::alpha, "kw::beta" => kw::beta, "kw::gamma" => kw::gamma,
    "decoy::Option<LitInt>" => decoy::Option<syn::LitInt>, "decoy::Vec<LitInt>" => decoy::Vec<syn::LitInt>,
    "decoy::NameValue<LitInt>" => decoy::NameValue<syn::LitInt>, "decoy::NameArgs<LitInt>" => decoy::NameArgs<syn::LitInt>,
    "decoy::HashMap<LitInt>" => decoy::HashMap<std::string::String, syn::LitInt>,
    "decoy::Flag" => decoy::Flag, "decoy::bool" => decoy::bool, "decoy::String" => decoy::String,
}
macro_rules! peeks {
    ($($k:literal => $t:expr),* $(,)?) => {
        /// is the next token of this kind?
        pub fn peek_leaf(kind: &str, input: ParseStream) -> bool {
            match kind {
                $($k => input.peek($t),)*
                _ => panic!("model: cannot peek {kind}"),
            }
        }
        pub const PEEKABLE: &[&str] = &[$($k),*];
    };
}
peeks! {
    "LitInt" => syn::LitInt, "LitStr" => syn::LitStr, "LitBool" => syn::LitBool, "Lit" => syn::Lit, "LitFloat" => syn::LitFloat, "LitChar" => syn::LitChar,
    "Ident" => syn::Ident, "any Ident" => syn::Ident::peek_any, "Lifetime" => syn::Lifetime,
    "Token![=]" => Token![=], "Token![,]" => Token![,], "Token![;]" => Token![;], "Token![:]" => Token![:], "Token![+]" => Token![+],
    "Token![-]" => Token![-], "Token![->]" => Token![->], "Token![=>]" => Token![=>], "Token![::]" => Token![::], "Token![!]" => Token![!],
    "Token![#]" => Token![#], "Token![?]" => Token![?], "Token![fn]" => Token![fn], "Token![struct]" => Token![struct], "Token![self]" => Token![self],
    "Token![mut]" => Token![mut], "Token![if]" => Token![if], "Token![..]" => Token![..], "Token![|]" => Token![|], "Token![<]" => Token![<],
    "Token![>]" => Token![>], "Token![&]" => Token![&], "Token![.]" => Token![.],
    "kw::alpha" => kw::alpha, "kw::beta" => kw::beta, "kw::gamma" => kw::gamma,
    "(" => syn::token::Paren, "[" => syn::token::Bracket, "{" => syn::token::Brace,
}

pub fn gen_int(r: &mut Rng) -> Tok {
    // values are drawn from a large range so that every argument is told apart
    match r.below(6) {
        0 => lit(format!("{}u8", r.below(256))),
        1 => lit(format!("0x{:X}", r.below(1 << 20))),
        _ => lit(format!("{}", r.below(1_000_000))),
    }
}
fn gen_str(r: &mut Rng) -> Tok {
    match r.below(6) {
        0 => lit(format!("r#\"x{}\"#", r.below(1000))),
        1 => lit(format!("\"a, b = {} \\\" )\"", r.below(1000))),
        _ => lit(format!("\"s{}\"", r.below(100000))),
    }
}
pub const IDENTS: &[&str] = &[
    "a", "b", "c", "x", "y", "abc", "ab", "abcd", "name", "value", "foo", "bar", "Foo", "BAR", "_x", "x1", "größe", "名前", "input",
    "span", "alpha", "beta", "zz",
];
pub const KEYWORDS: &[&str] = &["if", "self", "fn", "type", "struct", "mut", "Self", "async", "true", "match", "crate", "for", "in", "dyn", "_"];
pub fn gen_ident(r: &mut Rng) -> Tok {
    if r.pct(8) { id(r.pick(&["r#type", "r#abc", "r#if"])) } else { id(r.pick(IDENTS)) }
}
pub fn gen_any_ident(r: &mut Rng) -> Tok {
    if r.pct(50) { gen_ident(r) } else { id(r.pick(KEYWORDS)) }
}
fn gen_expr(r: &mut Rng, d: usize) -> Vec<Tok> {
    let mut v = match r.below(if d == 0 { 6 } else { 18 }) {
        0 | 1 => vec![gen_int(r)],
        2 => vec![gen_str(r)],
        3 | 4 => vec![gen_ident(r)],
        5 => vec![id(r.pick(&["self", "crate", "true"]))],
        6 => {
            let mut v = vec![p(r.pick(&["-", "&", "!", "*", "&&"]))];
            v.extend(gen_expr(r, d - 1));
            v
        }
        7 => vec![gen_ident(r), paren(gen_list(r, d - 1))],
        8 => vec![gen_ident(r), p("::"), gen_ident(r), paren(gen_list(r, d - 1))],
        9 => vec![paren(gen_list(r, d - 1))],
        10 => vec![Tok::G('[', gen_list(r, d - 1))],
        11 => {
            let mut v = vec![gen_ident(r), p(r.pick(&["=", "=="]))];
            v.extend(gen_expr(r, d - 1));
            v
        }
        12 | 13 => {
            let mut v = vec![gen_ident(r), p(r.pick(&["+", "==", "||", "*", "<=", "..", "+=", "&&", ".."]))];
            v.extend(gen_expr(r, 0));
            v
        }
        14 => vec![gen_ident(r), p("."), gen_ident(r)],
        15 => {
            let mut v = vec![p("|"), gen_ident(r), p("|")];
            v.extend(gen_expr(r, d - 1));
            v
        }
        16 => vec![gen_ident(r), p("!"), paren(gen_list(r, d - 1))],
        _ => vec![gen_ident(r), Tok::G('[', gen_expr(r, d - 1))],
    };
    if d > 0 && r.pct(4) {
        v = vec![Tok::G('N', v)];
    }
    v
}
fn gen_list(r: &mut Rng, d: usize) -> Vec<Tok> {
    let mut v = vec![];
    for i in 0..r.below(3) {
        if i > 0 {
            v.push(p(","));
        }
        v.extend(gen_expr(r, d));
    }
    v
}
fn gen_type(r: &mut Rng, d: usize) -> Vec<Tok> {
    match r.below(if d == 0 { 2 } else { 8 }) {
        0 | 1 => vec![gen_ident(r)],
        2 => vec![gen_ident(r), p("::"), gen_ident(r)],
        3 => {
            let mut v = vec![gen_ident(r), p("<")];
            v.extend(gen_type(r, 0));
            v.push(p(">"));
            v
        }
        4 => {
            let mut v = vec![p("&")];
            v.extend(gen_type(r, d - 1));
            v
        }
        5 => {
            let a = gen_type(r, d - 1);
            let mut v = a;
            v.push(p(","));
            v.extend(gen_type(r, d - 1));
            vec![paren(v)]
        }
        6 => vec![Tok::G('[', gen_type(r, d - 1))],
        _ => {
            let a = vec![paren(gen_type(r, d - 1)), p("->")];
            let mut v = vec![id("fn")];
            v.extend(a);
            v.extend(gen_type(r, 0));
            v
        }
    }
}
fn op(s: &str) -> Vec<Tok> {
    vec![p(s)]
}
/// tokens that the leaf's own parser accepts
pub fn gen_leaf(kind: &str, r: &mut Rng) -> Vec<Tok> {
    match kind {
        "LitInt" | "Box<LitInt>" if r.pct(6) => vec![p("-"), gen_int(r)],
        "LitFloat" if r.pct(6) => vec![p("-"), lit(format!("{}.5", r.below(1000)))],
        "Lit" if r.pct(3) => vec![p("-"), gen_int(r)],
        "LitInt" | "Box<LitInt>" | "decoy::Flag" | "decoy::bool" | "decoy::String" => vec![gen_int(r)],
        "LitStr" => vec![gen_str(r)],
        "LitBool" => vec![id(r.pick(&["true", "false"]))],
        "LitFloat" => vec![lit(format!("{}.5", r.below(1000)))],
        "LitChar" => vec![lit(*r.pick(&["'a'", "'='", "','", "'\\''"]))],
        "Lit" => match r.below(5) {
            0 => vec![gen_str(r)],
            1 => vec![lit("'c'")],
            2 => vec![lit("2.5")],
            3 => vec![id("false")],
            _ => vec![gen_int(r)],
        },
        "Ident" => vec![gen_ident(r)],
        "any Ident" => vec![gen_any_ident(r)],
        "Lifetime" => vec![Tok::Life(r.pick(&["'a", "'static", "'x1"]).to_string())],
        "Expr" | "Box<Expr>" => gen_expr(r, 2),
        "Type" => gen_type(r, 2),
        "Path" => {
            let mut v = vec![gen_ident(r)];
            for _ in 0..r.below(3) {
                v.push(p("::"));
                v.push(gen_ident(r));
            }
            v
        }
        "Visibility" => match r.below(4) {
            0 | 1 => vec![],
            2 => vec![id("pub")],
            _ => vec![id("pub"), paren(vec![id("crate")])],
        },
        "Pair" => vec![gen_int(r), gen_int(r)],
        "CommaPair" => vec![gen_int(r), p(","), gen_int(r)],
        "TokenStream" => soup(r, 4, 2),
        "Punct" => vec![p(r.pick(&["=", ",", ";", "+", "-", "!", "<", "&", "@", "."]))],
        "TokenTree" => match r.below(4) {
            0 => vec![gen_any_ident(r)],
            1 => vec![gen_int(r)],
            2 => gen_leaf("Punct", r),
            _ => gen_leaf("Group", r),
        },
        "Leaky" => {
            let mut v = vec![gen_int(r)];
            if r.pct(25) {
                v.extend(soup(r, 3, 1));
            }
            vec![paren(v)]
        }
        "Multi" => vec![gen_ident(r)],
        "Stmtish" => {
            let mut v: Vec<Tok> = (0..r.below(4)).map(|_| gen_any_ident(r)).collect();
            if r.pct(75) {
                v.push(p(";"));
            }
            v
        }
        "Nothing" => vec![],
        "Meta" => {
            let mut v = gen_leaf("Path", r);
            match r.below(4) {
                0 => v.push(Tok::G(*r.pick(&['(', '[', '{']), soup(r, 4, 1))),
                1 | 2 => {
                    v.push(p("="));
                    v.extend(gen_expr(r, 1));
                }
                _ => {}
            }
            v
        }
        "Member" => vec![if r.pct(50) { gen_ident(r) } else { lit(format!("{}", r.below(100000))) }],
        "Block" => vec![Tok::G('{', if r.pct(50) { vec![] } else { gen_expr(r, 1) })],
        "Macro" => {
            let mut v = gen_leaf("Path", r);
            v.push(p("!"));
            v.push(Tok::G(*r.pick(&['(', '[', '{']), soup(r, 4, 1)));
            v
        }
        "LitByteStr" => vec![lit(format!("b\"q{}\"", r.below(10000)))],
        "LitCStr" => vec![lit(format!("c\"q{}\"", r.below(10000)))],
        "LitByte" => vec![lit(*r.pick(&["b'a'", "b','", "b'\\''"]))],
        "BinOp" => vec![p(r.pick(&["+", "==", "&&", "<=", "<<=", "=="]))],
        "Group" => vec![Tok::G(*r.pick(&['(', '[', '{', 'N']), soup(r, 3, 1))],
        "Literal" => vec![if r.pct(50) { gen_int(r) } else { gen_str(r) }],
        "kw::alpha" => vec![id("alpha")],
        "kw::beta" => vec![id("beta")],
        "kw::gamma" => vec![id("gamma")],
        "Token![fn]" => vec![id("fn")],
        "Token![struct]" => vec![id("struct")],
        "Token![self]" => vec![id("self")],
        "Token![mut]" => vec![id("mut")],
        "Token![if]" => vec![id("if")],
        "Option<Token![,]>" => if r.pct(50) { op(",") } else { vec![] },
        "Option<Token![;]>" => if r.pct(50) { op(";") } else { vec![] },
        "Option<Token![mut]>" => if r.pct(50) { vec![id("mut")] } else { vec![] },
        "Option<LitInt>" => if r.pct(50) { vec![gen_int(r)] } else { vec![] },
        "Option<Ident>" => if r.pct(50) { vec![gen_ident(r)] } else { vec![] },
        k if k.starts_with("Token![") => op(&k[7..k.len() - 1]),
        "(" | "[" | "{" => vec![Tok::G(kind.chars().next().unwrap(), vec![])],
        k if k.starts_with("decoy::") => vec![Tok::G('[', vec![gen_int(r)])],
        k => panic!("gen_leaf {k}"),
    }
}
/// arbitrary tokens
pub fn soup_tok(r: &mut Rng, depth: usize) -> Tok {
    match r.below(if depth == 0 { 16 } else { 21 }) {
        0..=3 => gen_any_ident(r),
        4 | 5 => gen_int(r),
        6 => gen_str(r),
        7 | 8 => p(","),
        9 => p("="),
        10 => p(r.pick(&["==", "=>", "->", "::", "..", ";", ":", "!", "?", "#", "&", "|", "<", ">", ".", "+", "-", "@", "$", "~", "&&", "<="])),
        11 => Tok::Life("'a".into()),
        12 => lit(*r.pick(&["'x'", "1.5", "b\"z\"", "b'q'", "2.0f32", "c\"q\"", "true_"])),
        13 => gen_ident(r),
        14 => p(r.pick(&[",", "="])),
        15 => id(r.pick(&["alpha", "beta", "gamma", "mut", "fn"])),
        16 | 17 => { let n = r.below(4); paren(soup(r, n, depth - 1)) }
        18 => { let n = r.below(4); Tok::G('[', soup(r, n, depth - 1)) }
        19 => { let n = r.below(4); Tok::G('{', soup(r, n, depth - 1)) }
        _ => { let n = r.below(3); Tok::G('N', soup(r, n, depth - 1)) }
    }
}
pub fn soup(r: &mut Rng, n: usize, depth: usize) -> Vec<Tok> {
    let n = r.below(n + 1);
    (0..n).map(|_| soup_tok(r, depth)).collect()
}
