//! Minimal JSON reader/writer (no dependencies beyond those of structmeta).
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::O(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn opt_s(&self) -> Option<String> {
        match self {
            J::S(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::B(true))
    }
    pub fn u(&self) -> usize {
        match self {
            J::N(n) => *n as usize,
            _ => 0,
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => &[],
        }
    }
    pub fn o(&self) -> impl Iterator<Item = (&String, &J)> {
        match self {
            J::O(m) => m.iter().collect::<Vec<_>>().into_iter(),
            _ => vec![].into_iter(),
        }
    }
    pub fn str(s: impl Into<String>) -> J {
        J::S(s.into())
    }
    pub fn n(n: usize) -> J {
        J::N(n as f64)
    }
    pub fn obj(items: Vec<(&str, J)>) -> J {
        J::O(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                if n.fract() == 0.0 {
                    out.push_str(&format!("{}", *n as i64))
                } else {
                    out.push_str(&format!("{n}"))
                }
            }
            J::S(s) => esc(s, out),
            J::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(m) => {
                out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
pub fn parse(s: &str) -> J {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    val(&b, &mut i)
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[char], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        '{' => {
            let mut m = BTreeMap::new();
            *i += 1;
            loop {
                ws(b, i);
                if b[*i] == '}' {
                    *i += 1;
                    return J::O(m);
                }
                if b[*i] == ',' {
                    *i += 1;
                    continue;
                }
                let k = string(b, i);
                ws(b, i);
                assert_eq!(b[*i], ':');
                *i += 1;
                m.insert(k, val(b, i));
            }
        }
        '[' => {
            let mut a = vec![];
            *i += 1;
            loop {
                ws(b, i);
                if b[*i] == ']' {
                    *i += 1;
                    return J::A(a);
                }
                if b[*i] == ',' {
                    *i += 1;
                    continue;
                }
                a.push(val(b, i));
            }
        }
        '"' => J::S(string(b, i)),
        't' => {
            *i += 4;
            J::B(true)
        }
        'f' => {
            *i += 5;
            J::B(false)
        }
        'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_digit() || "+-.eE".contains(b[*i])) {
                *i += 1;
            }
            J::N(b[st..*i].iter().collect::<String>().parse().unwrap())
        }
    }
}
fn string(b: &[char], i: &mut usize) -> String {
    assert_eq!(b[*i], '"');
    *i += 1;
    let mut s = String::new();
    loop {
        match b[*i] {
            '"' => {
                *i += 1;
                return s;
            }
            '\\' => {
                *i += 1;
                match b[*i] {
                    'n' => s.push('\n'),
                    't' => s.push('\t'),
                    'r' => s.push('\r'),
                    'u' => {
                        let h: String = b[*i + 1..*i + 5].iter().collect();
                        s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                        *i += 4;
                    }
                    c => s.push(c),
                }
                *i += 1;
            }
            c => {
                s.push(c);
                *i += 1;
            }
        }
    }
}
