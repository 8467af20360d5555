//! Reference models: what the documentation says a derived parser / printer does.
//! They interpret a declaration's description; values of fields are parsed with syn's own parsers.
use crate::leaf::*;
use crate::node::*;
use crate::shape::*;
use crate::tok::*;
use proc_macro2::TokenStream;
use std::collections::BTreeMap;
use syn::ext::IdentExt;
use syn::parse::{ParseBuffer, ParseStream, Parser, discouraged::Speculative};
use syn::{Token, token};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// a value its field's type does not parse
    Value,
    Unknown,
    WrongStyle,
    Dup,
    MissingNamed,
    MissingPos,
    TooMany,
    Late,
    Comma,
    /// tokens left inside a delimiter or at the end
    Leftover,
    /// no variant / wrong delimiter (Parse derive)
    Pt,
}
#[derive(Clone, Debug)]
pub struct MErr {
    pub kind: Kind,
    /// start of the offending argument
    pub at: Option<Pos>,
    pub name: Option<String>,
    pub missing: Vec<String>,
    pub style: Option<Style>,
    /// declared names of the struct concerned
    pub declared: Vec<String>,
    pub has_rest: bool,
    /// argument starts inside an invisible group
    pub ng: bool,
    /// argument starts with a comma
    pub comma: bool,
}
impl MErr {
    fn new(kind: Kind) -> MErr {
        MErr { kind, at: None, name: None, missing: vec![], style: None, declared: vec![], has_rest: false, ng: false, comma: false }
    }
    pub fn show(&self) -> String {
        format!(
            "{:?}{}{}{}",
            self.kind,
            self.name.as_ref().map_or(String::new(), |n| format!(" `{n}`")),
            self.at.map_or(String::new(), |p| format!(" at {}", show_pos(p))),
            if self.missing.is_empty() { String::new() } else { format!(" missing {:?}", self.missing) },
        )
    }
}
pub type MRes = Result<Node, MErr>;
/// what the model saw while parsing, for coverage statistics
#[derive(Default, Clone)]
pub struct Trace {
    pub named: usize,
    pub rest: usize,
    pub positional: usize,
    pub ident_positional: usize,
    pub given: Vec<usize>,
    pub nested: usize,
}
pub struct Model<'a> {
    pub t: &'a Table,
    pub trace: std::cell::RefCell<Trace>,
}
fn value_err<T>(r: syn::Result<T>) -> Result<T, MErr> {
    r.map_err(|_| MErr::new(Kind::Value))
}
impl<'a> Model<'a> {
    pub fn new(t: &'a Table) -> Self {
        Model { t, trace: Default::default() }
    }
    fn ty(&self, ty: &Ty, input: ParseStream) -> MRes {
        match ty {
            Ty::Leaf(k) => value_err(parse_leaf(k, input)),
            Ty::Ref(id) => {
                self.trace.borrow_mut().nested += 1;
                let saved = std::mem::take(&mut self.trace.borrow_mut().given);
                let r = self.shape(self.t.get(id), input);
                self.trace.borrow_mut().given = saved;
                r
            }
            Ty::Arr(n, ty) => {
                let mut v = vec![];
                for _ in 0..*n {
                    v.push(self.ty(ty, input)?);
                }
                Ok(Node::List(v))
            }
        }
    }
    pub fn shape(&self, s: &Shape, input: ParseStream) -> MRes {
        match &s.def {
            Def::Sm(x) => self.sm(x, input),
            Def::Pt(x) => self.pt(x, input),
        }
    }
    /// elements separated by commas up to the end of `input`, trailing comma allowed
    fn list(&self, ty: &Ty, input: ParseStream) -> Result<Vec<Node>, MErr> {
        let mut v = vec![];
        while !input.is_empty() {
            v.push(self.ty(ty, input)?);
            if input.is_empty() {
                break;
            }
            value_err(input.parse::<Token![,]>())?;
        }
        Ok(v)
    }
    fn args(&self, f: &SmField, input: ParseStream) -> MRes {
        let (_, content) = value_err(open('(', input))?;
        if matches!(f.form, Form::List | Form::NAList | Form::NAOptList) {
            Ok(Node::List(self.list(&f.ty, &content)?))
        } else {
            self.ty(&f.ty, &content)
        }
    }
    /// value of one named argument, `input` being just after the name (and `=`)
    fn named_value(&self, f: &SmField, style: Style, span: Pos2, input: ParseStream) -> MRes {
        use Form::*;
        Ok(match (f.form, style) {
            (Bool, _) => Node::Bool(true),
            (Flag, _) => Node::Flag(Option::Some(span)),
            (Value, _) => self.ty(&f.ty, input)?,
            (List, _) => self.args(f, input)?,
            (NV, _) => Node::NV(span, Box::new(self.ty(&f.ty, input)?)),
            (NVOpt, Style::Flag) => Node::NV(span, Box::new(Node::None)),
            (NVOpt, _) => Node::NV(span, Box::new(Node::Some(Box::new(self.ty(&f.ty, input)?)))),
            (NA, _) | (NAList, _) => Node::NA(span, Box::new(self.args(f, input)?)),
            (NAOpt, Style::Flag) | (NAOptList, Style::Flag) => Node::NA(span, Box::new(Node::None)),
            (NAOpt, _) | (NAOptList, _) => Node::NA(span, Box::new(Node::Some(Box::new(self.args(f, input)?)))),
        })
    }
    pub fn sm(&self, s: &Sm, input: ParseStream) -> MRes {
        let n = s.fields.len();
        let mut vals: Vec<Option<Node>> = vec![None; n];
        let mut lists: Vec<Node> = vec![];
        let mut map: BTreeMap<String, Node> = BTreeMap::new();
        let declared: Vec<String> = s.fields.iter().filter_map(|f| f.name.clone()).collect();
        let req = s.required_pos();
        let opt = s.optional_pos();
        let variadic = s.variadic();
        let rest = s.rest();
        let has_pos = !opt.is_empty() || variadic.is_some();
        let mut first = true;
        for &i in &req {
            if !first {
                if input.is_empty() {
                    return Err(MErr::new(Kind::MissingPos));
                }
                input.parse::<Token![,]>().map_err(|_| MErr::new(Kind::Comma))?;
            }
            first = false;
            let empty = input.is_empty();
            self.trace.borrow_mut().positional += 1;
            if input.peek(syn::Ident::peek_any) {
                self.trace.borrow_mut().ident_positional += 1;
            }
            let comma = input.peek(Token![,]);
            let r = self.ty(&s.fields[i].ty, input).map_err(|e| MErr { comma: e.comma || comma, ..e });
            let r = if empty && r.is_err() { Err(MErr::new(Kind::MissingPos)) } else { r };
            vals[i] = Some(r?);
            self.trace.borrow_mut().given.push(i);
        }
        let mut k = 0;
        let mut named_used = false;
        while !input.is_empty() {
            if !first {
                input.parse::<Token![,]>().map_err(|_| MErr::new(Kind::Comma))?;
                if input.is_empty() {
                    break;
                }
            }
            first = false;
            let ng = input.peek(token::Group);
            let comma = input.peek(Token![,]);
            let at = start(input.span());
            let err = |kind: Kind| {
                let mut e = MErr::new(kind);
                e.at = Some(at);
                e.declared = declared.clone();
                e.has_rest = rest.is_some();
                e.ng = ng;
                e.comma = comma;
                e
            };
            let fork = input.fork();
            let mut named = None;
            if let Ok(ident) = fork.call(syn::Ident::parse_any) {
                let text = ident.to_string();
                let passes = !s.filter || text.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_');
                let style = if fork.is_empty() || fork.peek(Token![,]) {
                    Some(Style::Flag)
                } else if fork.peek(Token![=]) && !fork.peek(Token![==]) && !fork.peek(Token![=>]) {
                    Some(Style::Value)
                } else if fork.peek(token::Paren) {
                    Some(Style::Args)
                } else {
                    None
                };
                if passes {
                    match style {
                        Some(st) if !has_pos || s.declares(st) => named = Some((ident, text, Some(st))),
                        None if !has_pos => named = Some((ident, text, None)),
                        _ => {}
                    }
                }
            }
            if let Some((ident, text, style)) = named {
                let span = pos2(ident.span());
                let own = s.fields.iter().position(|f| f.name.as_deref() == Some(text.as_str()));
                let mut e = err(Kind::Unknown);
                e.name = Some(text.clone());
                e.style = style;
                let target = style.and_then(|st| match own {
                    Some(i) if s.fields[i].admits(st) => Some((i, st)),
                    _ => match rest {
                        Some(r) if s.fields[r].admits(st) => Some((r, st)),
                        _ => None,
                    },
                });
                let Some((i, st)) = target else {
                    if own.is_some() || rest.is_some() {
                        e.kind = Kind::WrongStyle;
                    }
                    return Err(e);
                };
                named_used = true;
                input.advance_to(&fork);
                if st == Style::Value {
                    input.parse::<Token![=]>().unwrap();
                }
                let f = &s.fields[i];
                if f.wrap == Wrap::Rest {
                    let v = self.named_value(f, st, span, input)?;
                    self.trace.borrow_mut().rest += 1;
                    if map.insert(text, v).is_some() {
                        e.kind = Kind::Dup;
                        return Err(e);
                    }
                } else {
                    if vals[i].is_some() {
                        e.kind = Kind::Dup;
                        return Err(e);
                    }
                    let v = self.named_value(f, st, span, input)?;
                    vals[i] = Some(v);
                    self.trace.borrow_mut().named += 1;
                    self.trace.borrow_mut().given.push(i);
                }
            } else {
                if !has_pos {
                    return Err(err(Kind::TooMany));
                }
                if named_used {
                    return Err(err(Kind::Late));
                }
                self.trace.borrow_mut().positional += 1;
                if input.peek(syn::Ident::peek_any) {
                    self.trace.borrow_mut().ident_positional += 1;
                }
                if k < opt.len() {
                    let v = self.ty(&s.fields[opt[k]].ty, input).map_err(|e| MErr { comma: e.comma || comma, ..e })?;
                    vals[opt[k]] = Some(v);
                    self.trace.borrow_mut().given.push(opt[k]);
                } else if let Some(v) = variadic {
                    lists.push(self.ty(&s.fields[v].ty, input).map_err(|e| MErr { comma: e.comma || comma, ..e })?);
                    self.trace.borrow_mut().given.push(v);
                } else {
                    return Err(err(Kind::TooMany));
                }
                k += 1;
            }
        }
        let missing: Vec<String> = s
            .fields
            .iter()
            .enumerate()
            .filter(|(i, f)| f.name.is_some() && f.required() && vals[*i].is_none())
            .map(|(_, f)| f.name.clone().unwrap())
            .collect();
        if !missing.is_empty() {
            let mut e = MErr::new(Kind::MissingNamed);
            e.missing = missing;
            return Err(e);
        }
        let mut out = vec![];
        for (i, f) in s.fields.iter().enumerate() {
            out.push(if Some(i) == variadic {
                Node::List(std::mem::take(&mut lists))
            } else if Some(i) == rest {
                Node::Map(std::mem::take(&mut map))
            } else {
                match (f.wrap, vals[i].take()) {
                    (Wrap::Opt, Some(v)) => Node::Some(Box::new(v)),
                    (Wrap::Opt, None) => Node::None,
                    (_, Some(v)) => v,
                    (_, None) => match f.form {
                        Form::Bool => Node::Bool(false),
                        Form::Flag => Node::Flag(None),
                        _ => unreachable!(),
                    },
                }
            });
        }
        Ok(Node::Struct(out))
    }
    fn pt_fields<'b>(&self, fs: &[PtField], input: &ParseBuffer<'b>) -> Result<Vec<Node>, MErr> {
        // stack of contents of open delimiters
        let mut stack: Vec<ParseBuffer<'b>> = vec![];
        let mut out = vec![];
        for f in fs {
            let mut val = None;
            for c in f.delims.chars() {
                match c {
                    '(' | '[' | '{' => {
                        let (node, content) = {
                            let cur: &ParseBuffer<'b> = match stack.last() {
                                Some(x) => x,
                                None => input,
                            };
                            let c = if f.macro_delim {
                                if cur.peek(token::Paren) {
                                    '('
                                } else if cur.peek(token::Bracket) {
                                    '['
                                } else {
                                    '{'
                                }
                            } else {
                                c
                            };
                            open(c, cur).map_err(|_| MErr::new(Kind::Pt))?
                        };
                        val = Some(node);
                        stack.push(content);
                    }
                    _ => {
                        stack.pop();
                    }
                }
            }
            let v = match val {
                Some(v) => v,
                None => {
                    let cur: &ParseBuffer<'b> = match stack.last() {
                        Some(x) => x,
                        None => input,
                    };
                    self.pt_field(f, cur)?
                }
            };
            out.push(v);
        }
        Ok(out)
    }
    fn pt_field(&self, f: &PtField, input: ParseStream) -> MRes {
        if let Some(sep) = &f.term {
            let mut e = vec![];
            let mut s = vec![];
            while !input.is_empty() {
                e.push(self.pt_elem(f, input)?);
                if input.is_empty() {
                    break;
                }
                s.push(value_err(parse_leaf(sep, input))?);
            }
            return Ok(Node::Punct(e, s));
        }
        self.pt_elem(f, input)
    }
    fn pt_elem(&self, f: &PtField, input: ParseStream) -> MRes {
        if f.any {
            return Ok(toks_of(&value_err(input.call(syn::Ident::parse_any))?));
        }
        self.ty(&f.ty, input)
    }
    fn peek_kind(f: &PtField) -> String {
        if let Some(c) = f.delims.chars().find(|c| "([{".contains(*c)) {
            return c.to_string();
        }
        match (&f.ty, f.any) {
            (Ty::Leaf(k), true) => format!("any {k}"),
            (Ty::Leaf(k), false) => k.clone(),
            _ => panic!(),
        }
    }
    /// do the next tokens match these fields? (a token may be several token trees: `->`, `-1`)
    fn peeked(&self, peeks: &[&PtField], ahead: ParseStream) -> bool {
        peeks.iter().all(|f| {
            peek_leaf(&Self::peek_kind(f), ahead)
                && match f.delims.chars().find(|c| "([{".contains(*c)) {
                    Some(c) => open(c, ahead).is_ok(),
                    None => self.pt_elem(f, ahead).is_ok(),
                }
        })
    }
    pub fn pt(&self, s: &Pt, input: ParseStream) -> MRes {
        if !s.is_enum {
            return Ok(Node::Struct(self.pt_fields(&s.variants[0], input)?));
        }
        for (i, v) in s.variants.iter().enumerate() {
            let peeks: Vec<_> = v.iter().filter(|f| f.peek).collect();
            if peeks.is_empty() {
                let fork = input.fork();
                if let Ok(x) = self.pt_fields(v, &fork) {
                    if fork.cursor() == syn::buffer::Cursor::empty() {
                        // a TokenStream took everything: advance_to cannot follow unless `input` is there too
                        let _ = input.parse::<proc_macro2::TokenStream>();
                    }
                    input.advance_to(&fork);
                    return Ok(Node::Var(i, x));
                }
            } else if self.peeked(&peeks, &input.fork()) {
                return Ok(Node::Var(i, self.pt_fields(v, input)?));
            }
        }
        Err(MErr::new(Kind::Pt))
    }
}
fn open<'b>(c: char, input: &ParseBuffer<'b>) -> syn::Result<(Node, ParseBuffer<'b>)> {
    let content;
    let node = match c {
        '(' => syn::parenthesized!(content in input).obs(),
        '[' => syn::bracketed!(content in input).obs(),
        _ => syn::braced!(content in input).obs(),
    };
    Ok((node, content))
}
/// Outcome of the model on a whole stream: verdict, remaining tokens right after the parse,
/// and whether the complete parse (nothing left) succeeds.
pub struct MOut {
    pub res: MRes,
    /// tokens left after a successful parse (empty for a complete one)
    pub rest: Vec<FTok>,
    pub trace: Trace,
}
pub fn run_model(t: &Table, s: &Shape, ts: TokenStream) -> MOut {
    run_model_mode(t, s, ts, false)
}
/// `partial`: tokens after the parsed part are allowed and reported
pub fn run_model_mode(t: &Table, s: &Shape, ts: TokenStream, partial: bool) -> MOut {
    let m = Model::new(t);
    let mut inner: Option<MRes> = None;
    let mut rest = vec![];
    let r = (|input: ParseStream| -> syn::Result<()> {
        let r = m.shape(s, input);
        let bad = r.is_err();
        inner = Some(r);
        if bad {
            return Err(input.error("model"));
        }
        if partial {
            let left: TokenStream = input.parse()?;
            rest = flatten(left);
        }
        Ok(())
    })
    .parse2(ts);
    let mut res = inner.unwrap_or_else(|| Err(MErr::new(Kind::Leftover)));
    if res.is_ok() && r.is_err() {
        res = Err(MErr::new(Kind::Leftover));
    }
    MOut { res, rest, trace: m.trace.into_inner() }
}

/// ToTokens model: the tokens of a value (given as observed node) of a derived type.
/// `Node::Delim` fields open a group, everything up to the close belongs to it.
pub fn print_model(t: &Table, s: &Shape, n: &Node, out: &mut Vec<FTok>) {
    let pt = s.pt();
    let (fs, vals) = match n {
        Node::Struct(v) => (&pt.variants[0], v),
        Node::Var(i, v) => (&pt.variants[*i], v),
        _ => panic!("print_model"),
    };
    let mut open: Vec<(char, Pos2)> = vec![];
    for (f, v) in fs.iter().zip(vals) {
        let mut opened = false;
        for c in f.delims.chars() {
            match c {
                '(' | '[' | '{' => {
                    let Node::Delim(c, o, e) = v else { panic!("delim") };
                    out.push(FTok { t: c.to_string(), s: o.0, e: o.1, joint: false });
                    open.push((*c, *e));
                    opened = true;
                }
                _ => close(&mut open, out),
            }
        }
        if !opened {
            print_val(t, &f.ty, v, out);
        }
    }
    while !open.is_empty() {
        close(&mut open, out);
    }
}
fn close(open: &mut Vec<(char, Pos2)>, out: &mut Vec<FTok>) {
    let (c, e) = open.pop().expect("unbalanced");
    let t = match c {
        '(' => ")",
        '[' => "]",
        _ => "}",
    };
    out.push(FTok { t: t.into(), s: e.0, e: e.1, joint: false });
}
fn print_val(t: &Table, ty: &Ty, n: &Node, out: &mut Vec<FTok>) {
    match (ty, n) {
        (_, Node::Toks(v)) => out.extend(v.iter().cloned()),
        (_, Node::None) => {}
        (_, Node::Some(x)) => print_val(t, ty, x, out),
        (_, Node::Punct(e, s)) => {
            for (i, x) in e.iter().enumerate() {
                print_val(t, ty, x, out);
                if let Some(y) = s.get(i) {
                    print_val(t, ty, y, out);
                }
            }
        }
        (Ty::Arr(_, ty), Node::List(v)) => v.iter().for_each(|x| print_val(t, ty, x, out)),
        (Ty::Ref(id), n) => print_model(t, t.get(id), n, out),
        (ty, n) => panic!("print {ty:?} {n:?}"),
    }
}
