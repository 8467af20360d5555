//! Descriptions of the generated declarations (read from the JSON file written with them).
use crate::json::J;
use crate::tok::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Leaf(String),
    Ref(String),
    Arr(usize, Box<Ty>),
}
impl Ty {
    fn from(j: &J) -> Ty {
        match j {
            J::S(s) => Ty::Leaf(s.clone()),
            j => {
                if let Some(s) = j.get("ref").opt_s() {
                    Ty::Ref(s)
                } else {
                    Ty::Arr(j.get("n").u(), Box::new(Ty::from(j.get("arr"))))
                }
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    Bool,
    Flag,
    Value,
    List,
    NV,
    NVOpt,
    NA,
    NAOpt,
    NAList,
    NAOptList,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wrap {
    Req,
    Opt,
    Rest,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Style {
    Flag,
    Value,
    Args,
}
pub const STYLES: [Style; 3] = [Style::Flag, Style::Value, Style::Args];
#[derive(Clone, Debug)]
pub struct SmField {
    /// the name it is addressed by; None for positional and rest
    pub name: Option<String>,
    pub form: Form,
    pub wrap: Wrap,
    pub ty: Ty,
}
impl SmField {
    pub fn positional(&self) -> bool {
        self.name.is_none() && self.wrap != Wrap::Rest
    }
    /// styles the field's type admits (documentation of StructMeta)
    pub fn admits(&self, s: Style) -> bool {
        use Form::*;
        match self.form {
            Bool | Flag => s == Style::Flag,
            Value => s == Style::Value,
            List | NA | NAList => s == Style::Args,
            NV => s == Style::Value,
            NVOpt => s == Style::Value || s == Style::Flag,
            NAOpt | NAOptList => s == Style::Args || s == Style::Flag,
        }
    }
    /// must the named parameter be given?
    pub fn required(&self) -> bool {
        self.wrap == Wrap::Req && !matches!(self.form, Form::Bool | Form::Flag)
    }
}
#[derive(Clone, Debug)]
pub struct Sm {
    pub filter: bool,
    pub fields: Vec<SmField>,
}
impl Sm {
    pub fn positionals(&self) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        v.extend(self.required_pos());
        v.extend(self.optional_pos());
        v
    }
    pub fn required_pos(&self) -> Vec<usize> {
        (0..self.fields.len())
            .filter(|&i| {
                let f = &self.fields[i];
                f.positional() && f.wrap == Wrap::Req && f.form != Form::List
            })
            .collect()
    }
    pub fn optional_pos(&self) -> Vec<usize> {
        (0..self.fields.len()).filter(|&i| self.fields[i].positional() && self.fields[i].wrap == Wrap::Opt).collect()
    }
    pub fn variadic(&self) -> Option<usize> {
        (0..self.fields.len()).find(|&i| self.fields[i].positional() && self.fields[i].form == Form::List)
    }
    pub fn rest(&self) -> Option<usize> {
        (0..self.fields.len()).find(|&i| self.fields[i].wrap == Wrap::Rest)
    }
    pub fn named(&self) -> Vec<usize> {
        (0..self.fields.len()).filter(|&i| self.fields[i].name.is_some()).collect()
    }
    /// does it declare any parameter (rest included) of the style?
    pub fn declares(&self, s: Style) -> bool {
        self.fields.iter().any(|f| !f.positional() && f.admits(s))
    }
}
#[derive(Clone, Debug)]
pub struct PtField {
    pub ty: Ty,
    /// the #[to_tokens("..")] symbols in order
    pub delims: String,
    pub macro_delim: bool,
    pub any: bool,
    pub term: Option<String>,
    pub peek: bool,
}
#[derive(Clone, Debug)]
pub struct Pt {
    pub is_enum: bool,
    pub variants: Vec<Vec<PtField>>,
}
#[derive(Clone, Debug)]
pub enum Def {
    Sm(Sm),
    Pt(Pt),
}
#[derive(Clone, Debug)]
pub struct Shape {
    pub id: String,
    pub def: Def,
    pub tags: Vec<String>,
    /// id of the plainly written twin declaration
    pub twin: Option<String>,
    pub decl: String,
    /// for C30: how it embeds another shape
    pub embed: Option<J>,
    /// for recursive types: one level around the placeholder HOLE, possibly several ways to write it
    pub deep: Vec<Vec<Tok>>,
}
impl Shape {
    pub fn has(&self, t: &str) -> bool {
        self.tags.iter().any(|x| x == t)
    }
    pub fn sm(&self) -> &Sm {
        match &self.def {
            Def::Sm(s) => s,
            _ => panic!(),
        }
    }
    pub fn pt(&self) -> &Pt {
        match &self.def {
            Def::Pt(s) => s,
            _ => panic!(),
        }
    }
    pub fn is_sm(&self) -> bool {
        matches!(self.def, Def::Sm(_))
    }
}
pub struct Table {
    pub shapes: Vec<Shape>,
    pub index: HashMap<String, usize>,
}
impl Table {
    pub fn get(&self, id: &str) -> &Shape {
        &self.shapes[*self.index.get(id).unwrap_or_else(|| panic!("no shape {id}"))]
    }
    pub fn from(j: &J) -> Table {
        let shapes: Vec<Shape> = j.get("shapes").a().iter().map(shape).collect();
        let index = shapes.iter().enumerate().map(|(i, s)| (s.id.clone(), i)).collect();
        Table { shapes, index }
    }
}
fn form(s: &str) -> Form {
    use Form::*;
    match s {
        "Bool" => Bool,
        "Flag" => Flag,
        "Value" => Value,
        "List" => List,
        "NV" => NV,
        "NVOpt" => NVOpt,
        "NA" => NA,
        "NAOpt" => NAOpt,
        "NAList" => NAList,
        "NAOptList" => NAOptList,
        _ => panic!("form {s}"),
    }
}
fn shape(j: &J) -> Shape {
    let def = if j.get("kind").s() == "sm" {
        Def::Sm(Sm {
            filter: j.get("filter").b(),
            fields: j
                .get("fields")
                .a()
                .iter()
                .map(|f| SmField {
                    name: f.get("name").opt_s(),
                    form: form(f.get("form").s()),
                    wrap: match f.get("wrap").s() {
                        "Req" => Wrap::Req,
                        "Opt" => Wrap::Opt,
                        _ => Wrap::Rest,
                    },
                    ty: Ty::from(f.get("ty")),
                })
                .collect(),
        })
    } else {
        Def::Pt(Pt {
            is_enum: j.get("enum").b(),
            variants: j
                .get("variants")
                .a()
                .iter()
                .map(|v| {
                    v.a()
                        .iter()
                        .map(|f| PtField {
                            ty: Ty::from(f.get("ty")),
                            delims: f.get("delims").s().to_string(),
                            macro_delim: f.get("macro").b(),
                            any: f.get("any").b(),
                            term: f.get("term").opt_s(),
                            peek: f.get("peek").b(),
                        })
                        .collect()
                })
                .collect(),
        })
    };
    Shape {
        id: j.get("id").s().to_string(),
        def,
        tags: j.get("tags").a().iter().map(|x| x.s().to_string()).collect(),
        twin: j.get("twin").opt_s(),
        decl: j.get("decl").s().to_string(),
        embed: match j.get("embed") {
            J::Null => None,
            x => Some(x.clone()),
        },
        deep: match j.get("deep") {
            J::A(v) => v.iter().map(|x| toks_of_stream(lex(x.s()).expect("template"))).collect(),
            _ => vec![],
        },
    }
}
