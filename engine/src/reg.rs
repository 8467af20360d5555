//! Registry of the generated types and the functions that exercise them.
use crate::leaf::*;
use crate::node::*;
use crate::rng::Rng;
use crate::tok::*;
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use syn::ext::IdentExt;
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub msg: String,
    pub start: Pos,
    pub end: Pos,
    /// how many messages the error consists of, and whether each is located and not empty
    pub n: usize,
    pub compile_error: bool,
}
#[derive(Clone, Debug)]
pub struct IOut {
    pub res: Result<Node, ErrInfo>,
    /// partial mode: tokens left after a successful parse
    pub rest: Vec<FTok>,
    /// tokens printed from the value
    pub printed: Option<Vec<FTok>>,
    /// result of parsing the printed tokens again
    pub reparsed: Option<Result<Node, String>>,
}
thread_local! {
    /// should printed tokens be parsed again?
    pub static REPARSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub struct MakeOut {
    pub node: Node,
    /// printed into an empty stream
    pub out: Vec<FTok>,
    /// printed after some tokens that were already there: complete stream and that prefix
    pub after: Vec<FTok>,
    pub prefix: Vec<FTok>,
    pub again: Vec<FTok>,
}
pub struct Entry {
    pub id: &'static str,
    pub parse: Option<fn(TokenStream, bool) -> IOut>,
    pub make: Option<fn(&mut Mk) -> MakeOut>,
}
fn err_info(e: &syn::Error) -> ErrInfo {
    let v: Vec<_> = e.clone().into_iter().collect();
    let compile_error = e.to_compile_error().to_string().contains("compile_error") && v.iter().all(|e| !e.to_string().trim().is_empty());
    ErrInfo { msg: e.to_string(), start: start(e.span()), end: end(e.span()), n: v.len(), compile_error }
}
fn run<T: Parse, R>(ts: TokenStream, partial: bool, f: impl Fn(&T) -> R) -> (Result<R, ErrInfo>, Vec<FTok>) {
    if !partial {
        return (syn::parse2::<T>(ts).map(|v| f(&v)).map_err(|e| err_info(&e)), vec![]);
    }
    let mut rest = vec![];
    let r = (|input: ParseStream| -> syn::Result<R> {
        let v = input.parse::<T>()?;
        let r = f(&v);
        let left: TokenStream = input.parse()?;
        rest = flatten(left);
        Ok(r)
    })
    .parse2(ts);
    (r.map_err(|e| err_info(&e)), rest)
}
fn parse_only<T: Parse + Obs>(ts: TokenStream, partial: bool) -> IOut {
    let (res, rest) = run::<T, _>(ts, partial, |v| v.obs());
    IOut { res, rest, printed: None, reparsed: None }
}
fn parse_print<T: Parse + Obs + ToTokens>(ts: TokenStream, partial: bool) -> IOut {
    let (res, rest) = run::<T, _>(ts, partial, |v| {
        if !REPARSE.get() {
            return (v.obs(), None, None);
        }
        let p = v.to_token_stream();
        let again = syn::parse2::<T>(p.clone()).map(|v| v.obs()).map_err(|e| e.to_string());
        (v.obs(), Some(flatten(p)), Some(again))
    });
    match res {
        Ok((n, printed, reparsed)) => IOut { res: Ok(n), rest, printed, reparsed },
        Err(e) => IOut { res: Err(e), rest, printed: None, reparsed: None },
    }
}
fn make_print<T: Make + Obs + ToTokens>(g: &mut Mk) -> MakeOut {
    let v = T::make(g);
    let node = v.obs();
    let out = flatten(v.to_token_stream());
    let mut ts = lex("\n pre ( x ) +=").unwrap();
    let prefix = flatten(ts.clone());
    v.to_tokens(&mut ts);
    let after = flatten(ts);
    let again = flatten(v.to_token_stream());
    MakeOut { node, out, after, prefix, again }
}
impl Entry {
    pub fn parse<T: Parse + Obs>(id: &'static str) -> Entry {
        Entry { id, parse: Some(parse_only::<T>), make: None }
    }
    pub fn print<T: Parse + Obs + ToTokens>(id: &'static str) -> Entry {
        Entry { id, parse: Some(parse_print::<T>), make: None }
    }
    pub fn make<T: Parse + Obs + ToTokens + Make>(id: &'static str) -> Entry {
        Entry { id, parse: Some(parse_print::<T>), make: Some(make_print::<T>) }
    }
    pub fn make_only<T: Obs + ToTokens + Make>(id: &'static str) -> Entry {
        Entry { id, parse: None, make: Some(make_print::<T>) }
    }
}
pub trait Make {
    fn make(g: &mut Mk) -> Self;
}
/// Builds values of generated types without using derived parsers.
pub struct Mk {
    pub r: Rng,
    line: usize,
    pub depth: usize,
    force: Option<usize>,
}
impl Mk {
    pub fn new(r: Rng) -> Mk {
        Mk { r, line: 3, depth: 0, force: None }
    }
    pub fn forced(r: Rng, variant: usize) -> Mk {
        Mk { r, line: 3, depth: 0, force: Some(variant) }
    }
    /// every value is lexed from its own line, so that positions tell values apart
    fn lex(&mut self, toks: &[Tok]) -> TokenStream {
        let lay = match self.r.below(3) {
            0 => Layout::Wide,
            1 => Layout::Tight,
            _ => Layout::Random(self.r.next()),
        };
        self.line += 1;
        let s = format!("{}{}", "\n".repeat(self.line), render(toks, lay));
        lex(&s).unwrap()
    }
    fn try_val<T: Parse>(&mut self, kind: &str) -> T {
        for _ in 0..50 {
            let t = gen_leaf(kind, &mut self.r);
            let mut ts = self.lex(&t);
            if matches!(kind, "Punct" | "TokenTree" | "TokenStream") && self.r.pct(40) {
                // a value that ends with a punctuation character spaced as if another one followed
                let mut v: Vec<_> = ts.into_iter().collect();
                let o = self.lex(&[p(*self.r.clone().pick(&["+=", "=>", "::", "&&", "..", "->"]))]);
                if kind != "TokenStream" {
                    v.clear();
                }
                v.extend(o.into_iter().take(1));
                ts = v.into_iter().collect();
            }
            if let Ok(v) = syn::parse2(ts) {
                return v;
            }
        }
        panic!("harness: no value of {kind}");
    }
    pub fn val<T: Parse>(&mut self, kind: &str) -> T {
        self.try_val(kind)
    }
    pub fn any_ident(&mut self) -> syn::Ident {
        let t = gen_any_ident(&mut self.r);
        let ts = self.lex(&[t]);
        syn::Ident::parse_any.parse2(ts).unwrap()
    }
    fn delim<T>(&mut self, c: char, f: impl Fn(ParseStream) -> syn::Result<T>) -> T {
        let ts = self.lex(&[Tok::G(c, vec![])]);
        (|i: ParseStream| f(i)).parse2(ts).unwrap()
    }
    pub fn paren(&mut self) -> syn::token::Paren {
        self.delim('(', |i| {
            let _c;
            Ok(syn::parenthesized!(_c in i))
        })
    }
    pub fn bracket(&mut self) -> syn::token::Bracket {
        self.delim('[', |i| {
            let _c;
            Ok(syn::bracketed!(_c in i))
        })
    }
    pub fn brace(&mut self) -> syn::token::Brace {
        self.delim('{', |i| {
            let _c;
            Ok(syn::braced!(_c in i))
        })
    }
    pub fn macro_delim(&mut self) -> syn::MacroDelimiter {
        match self.r.below(3) {
            0 => syn::MacroDelimiter::Paren(self.paren()),
            1 => syn::MacroDelimiter::Bracket(self.bracket()),
            _ => syn::MacroDelimiter::Brace(self.brace()),
        }
    }
    pub fn punct_with<T, P: Parse>(&mut self, mut f: impl FnMut(&mut Mk) -> T, sep: &str) -> Punctuated<T, P> {
        let mut v = Punctuated::new();
        let n = if self.depth == 0 && self.r.below(200) == 0 { self.r.range(40, 300) } else { self.r.below(4) };
        self.depth += 1;
        for i in 0..n {
            v.push_value(f(self));
            if i + 1 < n || self.r.pct(30) {
                v.push_punct(self.val(sep));
            }
        }
        self.depth -= 1;
        v
    }
    pub fn punct<T: Parse, P: Parse>(&mut self, kind: &str, sep: &str) -> Punctuated<T, P> {
        self.punct_with(|g| g.val(kind), sep)
    }
    pub fn punct_any<P: Parse>(&mut self, sep: &str) -> Punctuated<syn::Ident, P> {
        self.punct_with(|g| g.any_ident(), sep)
    }
    pub fn variant(&mut self, n: usize) -> usize {
        if let Some(f) = self.force.take() {
            return f % n;
        }
        self.r.below(n)
    }
    pub fn call_site(&self) -> Span {
        Span::call_site()
    }
}
