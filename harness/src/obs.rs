//! What the library shows of a parsed document, and its comparison with the reference model.
use crate::ast::*;
use crate::model::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use tomllib::types::*;
use tomllib::TOMLParser;

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn to_mval(v: &Value) -> MVal {
    match *v {
        Value::Integer(ref s) => MVal::Int(s.to_string()),
        Value::Float(ref s) => MVal::Float(s.to_string()),
        Value::Boolean(b) => MVal::Bool(b),
        Value::DateTime(ref d) => MVal::Dt(Dt {
            y: d.date.year.to_string(),
            mo: d.date.month.to_string(),
            d: d.date.day.to_string(),
            tm: d.time.as_ref().map(|t| Tm {
                h: t.hour.to_string(),
                m: t.minute.to_string(),
                s: t.second.to_string(),
                frac: t.fraction.as_ref().map(|f| f.to_string()),
                off: match t.offset {
                    None => Off::None,
                    Some(TimeOffset::Zulu) => Off::Zulu,
                    Some(TimeOffset::Time(ref a)) => Off::Amount(
                        if a.pos_neg == PosNeg::Pos { '+' } else { '-' },
                        a.hour.to_string(),
                        a.minute.to_string(),
                    ),
                },
            }),
        }),
        Value::String(ref s, t) => MVal::Str(
            s.to_string(),
            match t {
                StrType::Basic => St::Basic,
                StrType::MLBasic => St::MlBasic,
                StrType::Literal => St::Literal,
                StrType::MLLiteral => St::MlLiteral,
            },
        ),
        Value::Array(ref v) => MVal::Arr(v.iter().map(to_mval).collect()),
        Value::InlineTable(ref v) => MVal::Inl(v.iter().map(|x| (x.0.to_string(), to_mval(&x.1))).collect()),
    }
}

pub fn to_dt(d: &Dt) -> DateTime<'static> {
    DateTime {
        date: Date { year: d.y.clone().into(), month: d.mo.clone().into(), day: d.d.clone().into() },
        time: d.tm.as_ref().map(|t| Time {
            hour: t.h.clone().into(),
            minute: t.m.clone().into(),
            second: t.s.clone().into(),
            fraction: t.frac.as_ref().map(|f| f.clone().into()),
            offset: match t.off {
                Off::None => None,
                Off::Zulu => Some(TimeOffset::Zulu),
                Off::Amount(c, ref h, ref m) => Some(TimeOffset::Time(TimeOffsetAmount {
                    pos_neg: if c == '+' { PosNeg::Pos } else { PosNeg::Neg },
                    hour: h.clone().into(),
                    minute: m.clone().into(),
                })),
            },
        }),
    }
}

pub fn st(t: St) -> StrType {
    match t {
        St::Basic => StrType::Basic,
        St::MlBasic => StrType::MLBasic,
        St::Literal => StrType::Literal,
        St::MlLiteral => StrType::MLLiteral,
    }
}

pub fn to_value(m: &MVal) -> Value<'static> {
    match *m {
        MVal::Int(ref s) => Value::Integer(s.clone().into()),
        MVal::Float(ref s) => Value::Float(s.clone().into()),
        MVal::Bool(b) => Value::Boolean(b),
        MVal::Dt(ref d) => Value::DateTime(to_dt(d)),
        MVal::Str(ref s, t) => Value::String(s.clone().into(), st(t)),
        MVal::Arr(ref v) => Value::Array(Rc::new(v.iter().map(to_value).collect())),
        MVal::Inl(ref v) => Value::InlineTable(Rc::new(v.iter().map(|x| (x.0.clone().into(), to_value(&x.1))).collect())),
    }
}

pub fn kids(c: &Children) -> Kids {
    match *c {
        Children::Count(ref n) => Kids::Count(n.get()),
        Children::Keys(ref k) => Kids::Keys(k.borrow().clone()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum OErr {
    Dup(MVal),
    Table(HashMap<String, MVal>),
    Mixed,
    Date(String),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ObsErr {
    pub kind: OErr,
    pub key: String,
    pub line: usize,
    pub col: usize,
}

impl ObsErr {
    pub fn name(&self) -> &'static str {
        match self.kind {
            OErr::Dup(_) => "DuplicateKey",
            OErr::Table(_) => "InvalidTable",
            OErr::Mixed => "MixedArray",
            OErr::Date(_) => "InvalidDateTime",
            OErr::Other(_) => "other",
        }
    }
}

pub fn obs_err(e: &ParseError) -> ObsErr {
    let (kind, key, line, col) = match *e {
        ParseError::MixedArray(ref k, l, c) => (OErr::Mixed, k.clone(), l, c),
        ParseError::DuplicateKey(ref k, l, c, ref v) => (OErr::Dup(to_mval(v)), k.clone(), l, c),
        ParseError::InvalidTable(ref k, l, c, ref m) => (
            OErr::Table(m.borrow().iter().map(|(k, v)| (k.clone(), to_mval(v))).collect()),
            k.clone(),
            l,
            c,
        ),
        ParseError::InvalidDateTime(ref k, l, c, ref s) => (OErr::Date(s.to_string()), k.clone(), l, c),
        ref o => (OErr::Other(format!("{:?}", o)), String::new(), 0, 0),
    };
    ObsErr { kind, key, line, col }
}

/// A parse result taken apart.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub name: &'static str,
    pub leftover: Option<String>,
    pub line: Option<usize>,
    pub col: Option<usize>,
    pub errors: Vec<ObsErr>,
}

pub fn outcome(r: &ParseResult) -> Outcome {
    let errs = |e: &Rc<std::cell::RefCell<Vec<ParseError>>>| e.borrow().iter().map(obs_err).collect::<Vec<_>>();
    match *r {
        ParseResult::Full => Outcome { name: "Full", leftover: None, line: None, col: None, errors: vec![] },
        ParseResult::FullError(ref e) => {
            Outcome { name: "FullError", leftover: None, line: None, col: None, errors: errs(e) }
        }
        ParseResult::Partial(ref s, l, c) => {
            Outcome { name: "Partial", leftover: Some(s.to_string()), line: Some(l), col: Some(c), errors: vec![] }
        }
        ParseResult::PartialError(ref s, l, c, ref e) => Outcome {
            name: "PartialError",
            leftover: Some(s.to_string()),
            line: Some(l),
            col: Some(c),
            errors: errs(e),
        },
        ParseResult::Failure(l, c) => {
            Outcome { name: "Failure", leftover: None, line: Some(l), col: Some(c), errors: vec![] }
        }
    }
}

pub fn parse<'a>(text: &'a str) -> (TOMLParser<'a>, Outcome) {
    let (p, r) = TOMLParser::new().parse(text);
    let o = outcome(&r);
    (p, o)
}

/// What a text is, according to the reference parser and model.
pub struct Expect {
    pub doc: Doc,
    pub layout: Layout,
    pub model: Model,
    pub entries: Vec<Entry>,
    pub end: usize,
    pub undefined: bool,
    pub text: String,
}

impl Expect {
    pub fn of(text: &str) -> Expect {
        let p = crate::refparse::parse(text);
        let layout = p.doc.layout();
        if layout.text != text[..p.end] {
            panic!("harness: the reference parser does not keep the text {:?}", text);
        }
        let model = Model::build(&p.doc);
        let entries = model.entries(&p.doc);
        Expect { doc: p.doc, layout, model, entries, end: p.end, undefined: p.undefined, text: text.to_string() }
    }
    pub fn of_doc(doc: &Doc) -> Expect {
        let layout = doc.layout();
        let model = Model::build(doc);
        let entries = model.entries(doc);
        let text = layout.text.clone();
        Expect { doc: doc.clone(), layout, model, entries, end: text.len(), undefined: false, text }
    }
    pub fn full(&self) -> bool {
        self.end == self.text.len()
    }
    pub fn fail_line(&self) -> usize {
        1 + self.text[..self.end].matches('\n').count()
    }
    pub fn count(&self, name: &str) -> usize {
        self.model.errors.iter().filter(|e| e.name() == name).count()
    }
    pub fn result_name(&self) -> &'static str {
        match (self.full(), self.model.errors.is_empty()) {
            (true, true) => "Full",
            (true, false) => "FullError",
            (false, true) => "Partial",
            (false, false) => "PartialError",
        }
    }
}

/// What `get_value` says of every key.
pub fn check_values(p: &TOMLParser, entries: &[Entry]) -> Res {
    for e in entries {
        let got = p.get_value(e.key.clone());
        let got = got.as_ref().map(to_mval);
        ensure!(
            got == e.val,
            "get_value({:?}) is {}, expected {}",
            e.key,
            show(&got),
            show(&e.val)
        );
    }
    Ok(())
}

fn show(v: &Option<MVal>) -> String {
    match *v {
        None => "None".into(),
        Some(ref v) => format!("{:?} [{}]", v.text(""), v.json()),
    }
}

/// What `get_children` says of every key.
pub fn check_children(p: &TOMLParser, entries: &[Entry]) -> Res {
    for e in entries {
        match p.get_children(e.key.clone()) {
            None => return Err(format!("get_children({:?}) is None, expected {:?}", e.key, e.kids)),
            Some(c) => {
                let got = kids(c);
                ensure!(got == e.kids, "get_children({:?}) is {:?}, expected {:?}", e.key, got, e.kids);
            }
        }
    }
    Ok(())
}

/// Following the children from the root reaches every key, and nothing else.
pub fn check_closure(p: &TOMLParser, entries: &[Entry]) -> Res {
    let want: HashSet<&str> = entries.iter().map(|e| &e.key[..]).collect();
    let mut seen: HashSet<String> = HashSet::new();
    let mut todo = vec![String::new()];
    while let Some(k) = todo.pop() {
        if seen.contains(&k) {
            return Err(format!("key {:?} is the child of two keys or listed twice", k));
        }
        ensure!(want.contains(&k[..]), "get_children leads to the key {:?}, which is not in the document", k);
        seen.insert(k.clone());
        let c = match p.get_children(k.clone()) {
            Some(c) => c,
            None => return Err(format!("get_children({:?}) is None though the key is listed as a child", k)),
        };
        let all = c.combine_child_keys(k.clone());
        let one: Vec<String> = match kids(c) {
            Kids::Count(n) => (0..n).map(|i| Children::combine_keys_index(k.clone(), i)).collect(),
            Kids::Keys(v) => v.iter().map(|x| Children::combine_keys(k.clone(), x.clone())).collect(),
        };
        ensure!(all == one, "combine_child_keys({:?}) is {:?}, one by one the keys are {:?}", k, all, one);
        todo.extend(all);
    }
    for e in entries {
        ensure!(seen.contains(&e.key), "key {:?} cannot be reached from the root by get_children", e.key);
    }
    Ok(())
}

/// Keys near existing ones that must not exist.
pub fn absent_probes(entries: &[Entry]) -> Vec<String> {
    let want: HashSet<&str> = entries.iter().map(|e| &e.key[..]).collect();
    // the name that the root has inside
    let mut out: Vec<String> = vec!["$Root$".to_string()];
    for e in entries {
        let k = &e.key;
        let mut v = vec![
            join("$Root$", k),
            join(k, "zz"),
            format!("{}[0]", k),
            format!("{}.", k),
            format!(".{}", k),
            format!(" {}", k),
            format!("{}[]", k),
            format!("{}[00]", k),
            format!("{}[-1]", k),
            k.replace('"', ""),
            k.to_uppercase(),
        ];
        if let Kids::Count(n) = e.kids {
            v.push(format!("{}[{}]", k, n));
            v.push(format!("{}.0", k));
        }
        if let Some(i) = k.rfind('.') {
            v.push(k[i + 1..].to_string());
        }
        if let Some(i) = k.find('.') {
            v.push(k[i + 1..].to_string());
        }
        if let Some(i) = k.rfind('[') {
            v.push(format!("{}{}", &k[..i], k[i..].chars().skip(3).collect::<String>()));
        }
        for x in v {
            // a key with an existing prefix of another quoted key is a key text like any other
            if !want.contains(&x[..]) {
                out.push(x);
            }
        }
        if out.len() > 300 {
            break;
        }
    }
    out
}

pub fn check_absent(p: &TOMLParser, entries: &[Entry]) -> Res {
    for k in absent_probes(entries) {
        if let Some(v) = p.get_value(k.clone()) {
            return Err(format!("get_value({:?}) is {}, but the document has no such key", k, v));
        }
        if let Some(c) = p.get_children(k.clone()) {
            return Err(format!("get_children({:?}) is {:?}, but the document has no such key", k, kids(c)));
        }
    }
    Ok(())
}

pub fn check_view(p: &TOMLParser, entries: &[Entry]) -> Res {
    check_values(p, entries)?;
    check_children(p, entries)?;
    check_closure(p, entries)?;
    check_absent(p, entries)
}

/// The leftover of the result, and that the parsed part and the leftover make up the text.
pub fn check_lossless(p: &TOMLParser, o: &Outcome, text: &str) -> Res {
    let shown = p.to_string();
    match o.leftover {
        None => ensure!(shown == text, "the displayed document is {:?}", shown),
        Some(ref l) => {
            ensure!(!l.is_empty(), "{} with an empty leftover", o.name);
            ensure!(
                format!("{}{}", shown, l) == text,
                "the displayed document {:?} and the leftover {:?} do not make up the input",
                shown,
                l
            );
        }
    }
    Ok(())
}

/// The result variant and where parsing stopped.
pub fn check_result(o: &Outcome, x: &Expect) -> Res {
    if x.full() {
        ensure!(o.name == x.result_name(), "the result is {}, expected {}", o.name, x.result_name());
    } else {
        ensure!(
            o.name == "Partial" || o.name == "PartialError",
            "the result is {}, but the text {:?} is not TOML",
            o.name,
            head(&x.text[x.end..])
        );
        // an error may also have been found in the statement that could not be parsed
        ensure!(
            o.name == "PartialError" || x.model.errors.is_empty(),
            "the result is {} though the parsed part has errors",
            o.name
        );
        let l = o.leftover.as_ref().unwrap();
        ensure!(
            *l == x.text[x.end..],
            "the leftover is {:?}, expected {:?}",
            head(l),
            head(&x.text[x.end..])
        );
    }
    Ok(())
}

fn head(s: &str) -> String {
    s.chars().take(60).collect()
}

pub fn describe(e: &MErr) -> String {
    format!("{}({:?}) of statement {} {:?}", e.name(), e.key, e.item, e.kind)
}

fn matches(m: &MErr, o: &ObsErr) -> bool {
    if !(o.key == m.key || m.alt.as_ref() == Some(&o.key)) {
        return false;
    }
    match (&m.kind, &o.kind) {
        (&EKind::Dup { ref val, .. }, &OErr::Dup(ref v)) => val == v,
        (&EKind::Table { ref map }, &OErr::Table(ref got)) => {
            got.len() == map.len() && map.iter().all(|(k, v)| got.get(k) == Some(v))
        }
        (&EKind::Mixed { .. }, &OErr::Mixed) => true,
        (&EKind::Date { ref text, .. }, &OErr::Date(ref t)) => text == t,
        _ => false,
    }
}

/// The reported errors of the given kinds are the expected ones, each once. `lines`: also on the right lines.
pub fn check_errors(o: &Outcome, x: &Expect, kinds: &[&str], lines: bool) -> Res {
    let mut left: Vec<&ObsErr> = o.errors.iter().filter(|e| kinds.contains(&e.name())).collect();
    let mut missing: Vec<&MErr> = vec![];
    for m in x.model.errors.iter().filter(|e| kinds.contains(&e.name())) {
        let (a, b) = error_lines(m, &x.layout);
        let pos = left
            .iter()
            .position(|o| matches(m, o) && o.line >= a && o.line <= b)
            .or_else(|| if lines { None } else { left.iter().position(|o| matches(m, o)) });
        match pos {
            Some(i) => {
                left.remove(i);
            }
            None => missing.push(m),
        }
    }
    if let Some(m) = missing.first() {
        let (a, b) = error_lines(m, &x.layout);
        return Err(format!(
            "the error {} on line {} is not reported{}; reported: {:?}",
            describe(m),
            if a == b { a.to_string() } else { format!("{}-{}", a, b) },
            if lines { " like that" } else { "" },
            o.errors
        ));
    }
    for o in left {
        // a statement that could not be parsed may have reported errors of its own
        if !x.full() && matches!(o.kind, OErr::Mixed | OErr::Date(_)) && o.line >= x.fail_line() {
            continue;
        }
        return Err(format!("the document has no such error: {:?}", o));
    }
    for o in &o.errors {
        ensure!(o.col == 0, "error with column {}", o.col);
        ensure!(!matches!(o.kind, OErr::Other(_)), "unexpected error {:?}", o.kind);
    }
    Ok(())
}

pub const ALL_ERRORS: [&str; 4] = ["DuplicateKey", "InvalidTable", "MixedArray", "InvalidDateTime"];

/// What the library puts between the braces of an inline table in its default formatting and the pairs. The
/// documentation says nothing; that it puts a space there is a recorded finding.
pub fn brace() -> &'static str {
    static BRACE: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();
    BRACE.get_or_init(|| {
        let shown = std::panic::catch_unwind(|| {
            let (mut p, _) = TOMLParser::new().parse("a = 1");
            calls::set_value(&mut p, "a", to_value(&MVal::Inl(vec![("k".into(), MVal::Int("1".into()))])));
            p.to_string()
        });
        match shown {
            Ok(ref s) if s == "a = { k = 1 }" => " ",
            _ => "",
        }
    })
}
