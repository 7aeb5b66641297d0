//! The document as the generator sees it: every byte of the text, with the meaning of every value. Rendering it gives
//! the text; editing it and rendering again gives the text an edit is expected to produce.
use serde_json::{json, Value as J};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Off {
    None,
    Zulu,
    Amount(char, String, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tm {
    pub h: String,
    pub m: String,
    pub s: String,
    pub frac: Option<String>,
    pub off: Off,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dt {
    pub y: String,
    pub mo: String,
    pub d: String,
    pub tm: Option<Tm>,
}

impl Dt {
    pub fn text(&self) -> String {
        let mut s = format!("{}-{}-{}", self.y, self.mo, self.d);
        if let Some(ref t) = self.tm {
            s.push_str(&format!("T{}:{}:{}", t.h, t.m, t.s));
            if let Some(ref f) = t.frac {
                s.push('.');
                s.push_str(f);
            }
            match t.off {
                Off::None => (),
                Off::Zulu => s.push('Z'),
                Off::Amount(c, ref h, ref m) => s.push_str(&format!("{}{}:{}", c, h, m)),
            }
        }
        s
    }
    /// Whether the date and time exist, by the calendar (written from the documented rules, not from the code).
    pub fn exists(&self) -> bool {
        fn digits(s: &str, n: usize) -> Option<u32> {
            if s.len() == n && s.bytes().all(|b| b.is_ascii_digit()) {
                s.parse().ok()
            } else {
                None
            }
        }
        let (y, m, d) = match (digits(&self.y, 4), digits(&self.mo, 2), digits(&self.d, 2)) {
            (Some(y), Some(m), Some(d)) => (y, m, d),
            _ => return false,
        };
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let dim = match m {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 => {
                if leap {
                    29
                } else {
                    28
                }
            }
            _ => 0,
        };
        if y == 0 || d == 0 || d > dim {
            return false;
        }
        if let Some(ref t) = self.tm {
            match (digits(&t.h, 2), digits(&t.m, 2), digits(&t.s, 2)) {
                (Some(h), Some(m), Some(s)) if h < 24 && m < 60 && s < 60 => (),
                _ => return false,
            }
            if let Some(ref f) = t.frac {
                if f.is_empty() || !f.bytes().all(|b| b.is_ascii_digit()) {
                    return false;
                }
            }
            if let Off::Amount(c, ref h, ref m) = t.off {
                if c != '+' && c != '-' {
                    return false;
                }
                match (digits(h, 2), digits(m, 2)) {
                    (Some(h), Some(m)) if h < 24 && m < 60 => (),
                    _ => return false,
                }
            }
        }
        true
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Basic,
    MlBasic,
    Literal,
    MlLiteral,
}

impl St {
    pub fn quote(self) -> &'static str {
        match self {
            St::Basic => "\"",
            St::MlBasic => "\"\"\"",
            St::Literal => "'",
            St::MlLiteral => "'''",
        }
    }
}

/// What a value means, without any formatting.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MVal {
    Int(String),
    Float(String),
    Bool(bool),
    Dt(Dt),
    Str(String, St),
    Arr(Vec<MVal>),
    Inl(Vec<(String, MVal)>),
}

impl MVal {
    pub fn is_scalar(&self) -> bool {
        !matches!(*self, MVal::Arr(_) | MVal::Inl(_))
    }
    pub fn kind(&self) -> u8 {
        match *self {
            MVal::Int(_) => 0,
            MVal::Float(_) => 1,
            MVal::Bool(_) => 2,
            MVal::Dt(_) => 3,
            MVal::Str(_, _) => 4,
            MVal::Arr(_) => 5,
            MVal::Inl(_) => 6,
        }
    }
    /// The text of a scalar, or the documented default formatting of an array or inline table with `brace` between the
    /// braces of an inline table and its pairs.
    pub fn text(&self, brace: &str) -> String {
        match *self {
            MVal::Int(ref s) | MVal::Float(ref s) => s.clone(),
            MVal::Bool(b) => (if b { "true" } else { "false" }).to_string(),
            MVal::Dt(ref d) => d.text(),
            MVal::Str(ref s, t) => format!("{}{}{}", t.quote(), s, t.quote()),
            MVal::Arr(ref v) => {
                format!("[{}]", v.iter().map(|x| x.text(brace)).collect::<Vec<_>>().join(", "))
            }
            MVal::Inl(ref v) => format!(
                "{{{}{}{}}}",
                brace,
                v.iter().map(|(k, x)| format!("{} = {}", k, x.text(brace))).collect::<Vec<_>>().join(", "),
                brace
            ),
        }
    }
    pub fn json(&self) -> J {
        match *self {
            MVal::Int(ref s) => json!({ "int": s }),
            MVal::Float(ref s) => json!({ "float": s }),
            MVal::Bool(b) => json!(b),
            MVal::Dt(ref d) => json!({ "datetime": d.text() }),
            MVal::Str(ref s, t) => json!({ "string": s, "quotes": t.quote() }),
            MVal::Arr(ref v) => J::Array(v.iter().map(|x| x.json()).collect()),
            MVal::Inl(ref v) => json!({"inline": v.iter().map(|(k, x)| json!([k, x.json()])).collect::<Vec<_>>()}),
        }
    }
    pub fn depth(&self) -> usize {
        match *self {
            MVal::Arr(ref v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            MVal::Inl(ref v) => 1 + v.iter().map(|(_, x)| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn has_dup_keys(&self) -> bool {
        match *self {
            MVal::Arr(ref v) => v.iter().any(|x| x.has_dup_keys()),
            MVal::Inl(ref v) => {
                v.iter().enumerate().any(|(i, (k, x))| v[..i].iter().any(|(l, _)| l == k) || x.has_dup_keys())
            }
            _ => false,
        }
    }
    pub fn is_mixed(&self) -> bool {
        match *self {
            MVal::Arr(ref v) => v.iter().any(|x| x.is_mixed() || x.kind() != v[0].kind()),
            MVal::Inl(ref v) => v.iter().any(|(_, x)| x.is_mixed()),
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub val: Val,
    /// Text before and after the comma, if there is one.
    pub sep: Option<(String, String)>,
    pub trivia: String,
}

#[derive(Clone, Debug)]
pub struct Pair {
    pub key: String,
    pub ws1: String,
    pub ws2: String,
    pub val: Val,
    pub sep: Option<(String, String)>,
    pub trivia: String,
}

/// A value with its formatting.
#[derive(Clone, Debug)]
pub enum Val {
    Scalar(MVal),
    Arr { open: String, elems: Vec<Elem> },
    Inl { open: String, pairs: Vec<Pair>, close: String },
}

impl Val {
    pub fn sem(&self) -> MVal {
        match *self {
            Val::Scalar(ref m) => m.clone(),
            Val::Arr { ref elems, .. } => MVal::Arr(elems.iter().map(|e| e.val.sem()).collect()),
            Val::Inl { ref pairs, .. } => MVal::Inl(pairs.iter().map(|p| (p.key.clone(), p.val.sem())).collect()),
        }
    }
    /// A value in the default formatting.
    pub fn default(m: &MVal) -> Val {
        match *m {
            MVal::Arr(ref v) => Val::Arr {
                open: String::new(),
                elems: v
                    .iter()
                    .enumerate()
                    .map(|(i, x)| Elem {
                        val: Val::default(x),
                        sep: if i + 1 < v.len() { Some((String::new(), " ".into())) } else { None },
                        trivia: String::new(),
                    })
                    .collect(),
            },
            MVal::Inl(ref v) => Val::Inl {
                open: crate::obs::brace().into(),
                pairs: v
                    .iter()
                    .enumerate()
                    .map(|(i, (k, x))| Pair {
                        key: k.clone(),
                        ws1: " ".into(),
                        ws2: " ".into(),
                        val: Val::default(x),
                        sep: if i + 1 < v.len() { Some((String::new(), " ".into())) } else { None },
                        trivia: String::new(),
                    })
                    .collect(),
                close: crate::obs::brace().into(),
            },
            ref s => Val::Scalar(s.clone()),
        }
    }
    pub fn same_structure(&self, m: &MVal) -> bool {
        match (self, m) {
            (&Val::Arr { ref elems, .. }, &MVal::Arr(ref v)) => {
                elems.len() == v.len() && elems.iter().zip(v).all(|(e, x)| e.val.same_structure(x))
            }
            (&Val::Inl { ref pairs, .. }, &MVal::Inl(ref v)) => {
                pairs.len() == v.len() && pairs.iter().zip(v).all(|(p, (k, x))| p.key == *k && p.val.same_structure(x))
            }
            (&Val::Scalar(_), m) => m.is_scalar(),
            _ => false,
        }
    }
    /// What setting the value does to it, as documented.
    pub fn set(&mut self, m: &MVal) {
        if self.same_structure(m) {
            self.replace(m)
        } else {
            *self = Val::default(m)
        }
    }
    fn replace(&mut self, m: &MVal) {
        match (self, m) {
            (&mut Val::Arr { ref mut elems, .. }, &MVal::Arr(ref v)) => {
                for (e, x) in elems.iter_mut().zip(v) {
                    e.val.replace(x)
                }
            }
            (&mut Val::Inl { ref mut pairs, .. }, &MVal::Inl(ref v)) => {
                for (p, (_, x)) in pairs.iter_mut().zip(v) {
                    p.val.replace(x)
                }
            }
            (s, m) => *s = Val::Scalar(m.clone()),
        }
    }
    pub fn at(&mut self, path: &[usize]) -> &mut Val {
        if path.is_empty() {
            return self;
        }
        match *self {
            Val::Arr { ref mut elems, .. } => elems[path[0]].val.at(&path[1..]),
            Val::Inl { ref mut pairs, .. } => pairs[path[0]].val.at(&path[1..]),
            _ => panic!("harness: path into a scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct HKey {
    pub pre: String,
    pub key: String,
    pub post: String,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Blank,
    KeyVal { key: String, ws1: String, ws2: String, val: Val },
    Header { array: bool, keys: Vec<HKey> },
    /// Text that is no TOML expression.
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub pre: String,
    pub kind: Kind,
    pub post: String,
    pub comment: Option<String>,
    /// The newline that ends the expression; the one of the last item may be empty.
    pub nl: String,
}

#[derive(Clone, Debug)]
pub struct Span {
    pub start: usize,
    pub end: usize,
    pub line: usize,
    pub end_line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub text: String,
    /// Of every value, by item and path.
    pub vals: HashMap<(usize, Vec<usize>), Span>,
    /// Of every item, without its newline.
    pub items: Vec<Option<Span>>,
    line: usize,
}

impl Layout {
    fn put(&mut self, s: &str) {
        self.line += s.bytes().filter(|&b| b == b'\n').count();
        self.text.push_str(s);
    }
    fn val(&mut self, item: usize, path: &mut Vec<usize>, v: &Val) {
        let (start, line) = (self.text.len(), self.line);
        match *v {
            Val::Scalar(ref m) => self.put(&m.text("")),
            Val::Arr { ref open, ref elems } => {
                self.put("[");
                self.put(open);
                for (i, e) in elems.iter().enumerate() {
                    path.push(i);
                    self.val(item, path, &e.val);
                    path.pop();
                    if let Some((ref a, ref b)) = e.sep {
                        self.put(a);
                        self.put(",");
                        self.put(b);
                    }
                    self.put(&e.trivia);
                }
                self.put("]");
            }
            Val::Inl { ref open, ref pairs, ref close } => {
                self.put("{");
                self.put(open);
                for (i, p) in pairs.iter().enumerate() {
                    self.put(&p.key);
                    self.put(&p.ws1);
                    self.put("=");
                    self.put(&p.ws2);
                    path.push(i);
                    self.val(item, path, &p.val);
                    path.pop();
                    if let Some((ref a, ref b)) = p.sep {
                        self.put(a);
                        self.put(",");
                        self.put(b);
                    }
                    self.put(&p.trivia);
                }
                self.put(close);
                self.put("}");
            }
        }
        let span = Span { start, end: self.text.len(), line, end_line: self.line };
        self.vals.insert((item, path.clone()), span);
    }
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub items: Vec<Item>,
}

impl Doc {
    pub fn layout(&self) -> Layout {
        let mut l = Layout { line: 1, ..Layout::default() };
        for (i, it) in self.items.iter().enumerate() {
            l.put(&it.pre);
            let (start, line) = (l.text.len(), l.line);
            match it.kind {
                Kind::Blank => (),
                Kind::KeyVal { ref key, ref ws1, ref ws2, ref val } => {
                    l.put(key);
                    l.put(ws1);
                    l.put("=");
                    l.put(ws2);
                    l.val(i, &mut vec![], val);
                }
                Kind::Header { array, ref keys } => {
                    l.put(if array { "[[" } else { "[" });
                    for (j, k) in keys.iter().enumerate() {
                        if j > 0 {
                            l.put(".");
                        }
                        l.put(&k.pre);
                        l.put(&k.key);
                        l.put(&k.post);
                    }
                    l.put(if array { "]]" } else { "]" });
                }
                Kind::Raw(ref s) => l.put(s),
            }
            l.put(&it.post);
            if let Some(ref c) = it.comment {
                l.put("#");
                l.put(c);
            }
            l.items.push(Some(Span { start, end: l.text.len(), line, end_line: l.line }));
            l.put(&it.nl);
        }
        l
    }
    pub fn text(&self) -> String {
        self.layout().text
    }
}
