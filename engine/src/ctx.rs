//! What a run works on and what it records.
use crate::json::J;
use crate::model::*;
use crate::reg::*;
use crate::rng::*;
use crate::shape::*;
use crate::tok::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub struct Cx {
    pub t: Table,
    pub e: HashMap<String, Entry>,
    pub prop: String,
    pub seed: u64,
    /// shapes the property is checked on (indices into the table)
    pub pool: Vec<usize>,
    pub thorough: bool,
}
#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub shape: String,
    pub decl: String,
    pub inputs: Vec<String>,
    pub expected: String,
    pub actual: String,
    pub case: u64,
    pub size: usize,
}
#[derive(Default)]
pub struct Rec {
    pub case: u64,
    pub evals: u64,
    pub finds: Vec<Finding>,
    pub n_finds: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub shapes: HashSet<String>,
    pub samples: Vec<String>,
    pub verbose: bool,
    pub panicked: Option<String>,
}
impl Rec {
    pub fn count(&mut self, k: impl Into<String>) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self, s: &Shape, text: &str) {
        let mut h = hash64(s.id.as_bytes());
        // layout is not part of a case's identity
        let norm: String = text.split_whitespace().collect::<Vec<_>>().join(" ");
        h ^= hash64(norm.as_bytes()).rotate_left(17);
        if self.distinct.insert(h) && self.samples.len() < 3 && self.distinct.len() % 97 == 1 {
            self.samples.push(format!("{} <- {}", s.decl.replace('\n', " "), norm));
        }
        self.shapes.insert(s.id.clone());
    }
    pub fn find(&mut self, kind: &str, s: &Shape, inputs: &[&str], expected: String, actual: String) {
        self.n_finds += 1;
        if self.verbose {
            println!("--- {kind}\n{}\ninputs: {inputs:#?}\nexpected: {expected}\nactual:   {actual}", s.decl);
        }
        let size = inputs.iter().map(|x| x.len()).sum::<usize>() + s.decl.len();
        let f = Finding {
            kind: kind.into(),
            shape: s.id.clone(),
            decl: s.decl.clone(),
            inputs: inputs.iter().map(|x| x.to_string()).collect(),
            expected,
            actual,
            case: self.case,
            size,
        };
        self.finds.push(f);
        if self.finds.len() > 12 {
            self.finds.sort_by_key(|f| f.size);
            self.finds.truncate(6);
        }
    }
    pub fn merge(&mut self, o: Rec) {
        self.evals += o.evals;
        self.n_finds += o.n_finds;
        self.finds.extend(o.finds);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.shapes.extend(o.shapes);
        self.samples.extend(o.samples);
    }
}
pub fn show_res(o: &IOut) -> String {
    match &o.res {
        Ok(n) => format!("Ok {}{}", n.show(), if o.rest.is_empty() { String::new() } else { format!(" left: {}", texts(&o.rest)) }),
        Err(e) => format!("Err at {}: {}", show_pos(e.start), e.msg),
    }
}
pub fn show_m(o: &MOut) -> String {
    match &o.res {
        Ok(n) => format!("Ok {}{}", n.show(), if o.rest.is_empty() { String::new() } else { format!(" left: {}", texts(&o.rest)) }),
        Err(e) => format!("Err {}", e.show()),
    }
}
pub const PANIC: &str = "PANIC: ";
impl Cx {
    /// run the derived parser of the shape on the text
    pub fn imp(&self, rec: &mut Rec, s: &Shape, text: &str, partial: bool) -> IOut {
        let ts = lex(text).unwrap_or_else(|e| panic!("harness: lex {text:?}: {e}"));
        self.imp_ts(rec, s, ts, partial)
    }
    pub fn imp_ts(&self, rec: &mut Rec, s: &Shape, ts: proc_macro2::TokenStream, partial: bool) -> IOut {
        rec.evals += 1;
        let f = self.e[&s.id].parse.expect("parse");
        match catch_unwind(AssertUnwindSafe(|| f(ts, partial))) {
            Ok(o) => {
                rec.count(if o.res.is_ok() { "accepted" } else { "rejected" });
                o
            }
            Err(p) => {
                let m = panic_msg(p);
                rec.count("panicked");
                rec.panicked = Some(m.clone());
                IOut {
                    res: Err(ErrInfo { msg: format!("{PANIC}{m}"), start: 0, end: 0, n: 1, compile_error: true }),
                    rest: vec![],
                    printed: None,
                    reparsed: None,
                }
            }
        }
    }
    pub fn model(&self, s: &Shape, text: &str, partial: bool) -> MOut {
        run_model_mode(&self.t, s, lex(text).unwrap(), partial)
    }
    pub fn pick<'a>(&'a self, r: &mut Rng) -> &'a Shape {
        &self.t.shapes[*r.pick(&self.pool)]
    }
}
pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}
pub fn finding_json(f: &Finding) -> J {
    J::obj(vec![
        ("kind", J::S(f.kind.clone())),
        ("shape", J::S(f.shape.clone())),
        ("declaration", J::S(f.decl.clone())),
        ("inputs", J::A(f.inputs.iter().map(|x| J::S(x.clone())).collect())),
        ("expected", J::S(f.expected.clone())),
        ("actual", J::S(f.actual.clone())),
        ("case", J::N(f.case as f64)),
    ])
}
