//! Owned token trees, rendering to source text (several layouts), lexing, flattening.
use crate::rng::Rng;
use proc_macro2::{Delimiter, Group, LineColumn, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tok {
    /// identifier or keyword, possibly raw
    Id(String),
    /// one Rust operator lexeme
    P(String),
    Lit(String),
    Life(String),
    /// '(' '[' '{' or 'N' (invisible group)
    G(char, Vec<Tok>),
}
pub fn id(s: &str) -> Tok {
    Tok::Id(s.to_string())
}
pub fn p(s: &str) -> Tok {
    Tok::P(s.to_string())
}
pub fn lit(s: impl Into<String>) -> Tok {
    Tok::Lit(s.into())
}
pub fn paren(v: Vec<Tok>) -> Tok {
    Tok::G('(', v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    /// one space between all tokens
    Wide,
    /// no space wherever the Rust lexer still sees the same lexemes
    Tight,
    /// anything in between, newlines and comments included
    Random(u64),
}
const OPS: &[&str] = &[
    "<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=",
    "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..", "<-", "//", "/*", "*/",
];
fn greedy(s: &str) -> usize {
    for l in [3, 2] {
        if s.len() >= l && s.is_char_boundary(l) && OPS.contains(&&s[..l]) {
            return l;
        }
    }
    s.chars().next().map_or(0, |c| c.len_utf8())
}
fn first_text(t: &Tok) -> String {
    match t {
        Tok::Id(s) | Tok::P(s) | Tok::Lit(s) | Tok::Life(s) => s.clone(),
        Tok::G('N', v) => v.first().map_or("__NG".into(), |_| "__NG".into()),
        Tok::G(c, _) => c.to_string(),
    }
}
/// may `a` be directly followed by `b` without changing the lexemes?
fn can_join(a: &Tok, b: &Tok) -> bool {
    let word = |t: &Tok| matches!(t, Tok::Id(_) | Tok::Lit(_) | Tok::Life(_) | Tok::G('N', _));
    match (a, b) {
        (Tok::G('N', _), _) => true,
        (Tok::G(_, _), _) => true,
        (x, y) if word(x) && word(y) => false,
        (Tok::Id(_), Tok::P(s)) => !s.starts_with('#') && !s.starts_with('\''),
        (Tok::Lit(_), Tok::P(s)) => !s.starts_with('.') && !s.starts_with('#'),
        (Tok::Life(_), Tok::P(s)) => !s.starts_with('\'') && !s.starts_with('#'),
        (x, Tok::G(_, _)) if word(x) => true,
        (Tok::P(s), Tok::P(o)) => {
            let j = format!("{s}{o}");
            // greedy lexing must give exactly s, then exactly o
            let mut k = 0;
            while k < s.len() {
                k += greedy(&j[k..]);
            }
            greedy(&j) == s.len() && k == s.len() && greedy(o) == o.len()
        }
        (Tok::P(s), Tok::Lit(l)) => !(s.ends_with('#') || (s.ends_with('.') && l.starts_with(|c: char| c.is_ascii_digit()))),
        (Tok::P(s), _) => !s.ends_with('#') || matches!(b, Tok::G(_, _)),
        _ => true,
    }
}
pub fn render(toks: &[Tok], layout: Layout) -> String {
    // Real tokens never start at line 1 column 0, where `Span::call_site()` appears to be.
    let mut s = String::from("\n ");
    let mut rng = match layout {
        Layout::Random(x) => Some(Rng::new(x)),
        _ => None,
    };
    render_into(toks, layout, &mut rng, &mut s);
    s
}
fn sep(prev: &Tok, next: &Tok, layout: Layout, rng: &mut Option<Rng>, s: &mut String) {
    match layout {
        Layout::Wide => s.push(' '),
        Layout::Tight => {
            if !can_join(prev, next) {
                s.push(' ')
            }
        }
        Layout::Random(_) => {
            let r = rng.as_mut().unwrap();
            match r.below(8) {
                0..=2 if can_join(prev, next) => {}
                0..=4 => s.push(' '),
                5 => s.push_str("  \t "),
                6 => s.push_str("\n  "),
                _ => s.push_str(" /* x, = ( */ "),
            }
        }
    }
}
fn render_into(toks: &[Tok], layout: Layout, rng: &mut Option<Rng>, s: &mut String) {
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            sep(&toks[i - 1], t, layout, rng, s);
        }
        match t {
            Tok::Id(x) | Tok::P(x) | Tok::Lit(x) | Tok::Life(x) => s.push_str(x),
            Tok::G(c, v) => {
                let (o, cl) = match c {
                    '(' => ("(", ")"),
                    '[' => ("[", "]"),
                    '{' => ("{", "}"),
                    _ => ("__NG(", ")"),
                };
                s.push_str(o);
                if layout == Layout::Wide && !v.is_empty() {
                    s.push(' ');
                }
                render_into(v, layout, rng, s);
                if layout == Layout::Wide && !v.is_empty() {
                    s.push(' ');
                }
                s.push_str(cl);
            }
        }
    }
    let _ = first_text;
}
pub fn lex(text: &str) -> Result<TokenStream, String> {
    let ts: TokenStream = text.parse().map_err(|e| format!("{e}"))?;
    if text.contains("__NG") { Ok(fix_ng(ts)) } else { Ok(ts) }
}
fn fix_ng(ts: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i == "__NG" => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let inner = fix_ng(g.stream());
                    let span = inner.clone().into_iter().next().map_or(i.span(), |t| t.span());
                    let mut ng = Group::new(Delimiter::None, inner);
                    ng.set_span(span);
                    out.push(TokenTree::Group(ng));
                    it.next();
                } else {
                    out.push(TokenTree::Ident(i));
                }
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), fix_ng(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

/// Source position: line << 20 | column; 0 for none.
pub type Pos = u64;
pub fn pos(lc: LineColumn) -> Pos {
    ((lc.line as u64) << 20) | lc.column as u64
}
pub fn start(s: Span) -> Pos {
    pos(s.start())
}
pub fn end(s: Span) -> Pos {
    pos(s.end())
}
pub fn show_pos(p: Pos) -> String {
    format!("{}:{}", p >> 20, p & 0xfffff)
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FTok {
    pub t: String,
    pub s: Pos,
    pub e: Pos,
    /// Joint punctuation?
    pub joint: bool,
}
pub fn flatten(ts: TokenStream) -> Vec<FTok> {
    let mut v = Vec::new();
    flat_into(ts, &mut v);
    v
}
fn flat_into(ts: TokenStream, v: &mut Vec<FTok>) {
    for t in ts {
        let sp = t.span();
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("<N", "N>"),
                };
                v.push(FTok { t: o.into(), s: start(g.span_open()), e: end(g.span_open()), joint: false });
                flat_into(g.stream(), v);
                v.push(FTok { t: c.into(), s: start(g.span_close()), e: end(g.span_close()), joint: false });
            }
            TokenTree::Punct(p) => v.push(FTok {
                t: p.as_char().to_string(),
                s: start(sp),
                e: end(sp),
                joint: p.spacing() == Spacing::Joint,
            }),
            t => v.push(FTok { t: t.to_string(), s: start(sp), e: end(sp), joint: false }),
        }
    }
}
pub fn texts(v: &[FTok]) -> String {
    v.iter().map(|t| t.t.as_str()).collect::<Vec<_>>().join(" ")
}
/// number of tokens, groups counted with their contents
pub fn count(v: &[Tok]) -> usize {
    v.iter()
        .map(|t| match t {
            Tok::G(_, v) => 2 + count(v),
            _ => 1,
        })
        .sum()
}
/// Tok tree from text (for replay)
pub fn toks_of_stream(ts: TokenStream) -> Vec<Tok> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i == "__NG" => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    out.push(Tok::G('N', toks_of_stream(g.stream())));
                    it.next();
                }
            }
            TokenTree::Group(g) => {
                let c = match g.delimiter() {
                    Delimiter::Parenthesis => '(',
                    Delimiter::Bracket => '[',
                    Delimiter::Brace => '{',
                    Delimiter::None => 'N',
                };
                out.push(Tok::G(c, toks_of_stream(g.stream())));
            }
            TokenTree::Ident(i) => out.push(Tok::Id(i.to_string())),
            TokenTree::Literal(l) => out.push(Tok::Lit(l.to_string())),
            TokenTree::Punct(q) => {
                if q.as_char() == '\'' {
                    if let Some(TokenTree::Ident(i)) = it.next() {
                        out.push(Tok::Life(format!("'{i}")));
                    }
                } else {
                    out.push(Tok::P(q.as_char().to_string()));
                }
            }
        }
    }
    out
}
