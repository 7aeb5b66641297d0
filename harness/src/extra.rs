//! The checks of what parsing costs (C26) and leaves behind (C27).
use crate::ast::*;
use crate::checks::*;
use crate::edits::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::runner::*;
use crate::tape::*;
use crate::{cov, meter};
use serde_json::json;
use tomllib::types::{TOMLError, Value};
use tomllib::TOMLParser;

// ------------------------------------------------------------------------------------------------------------ C26

/// Basic blocks of tomllib that were run, and bytes that were taken from the allocator.
#[derive(Clone, Copy, Default)]
struct Cost {
    steps: u64,
    bytes: u64,
}

fn cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (s, b) = (cov::steps(), meter::taken());
    let r = f();
    (r, Cost { steps: cov::steps() - s, bytes: meter::taken() - b })
}

/// A way to make a text of any size.
enum Growth {
    /// before, again and again with {n} replaced by the number, after
    Repeat(String, Vec<String>, String),
    /// before, openings, inside, closings, after
    Nest(String, Vec<(String, String)>, String, bool, String),
}

impl Growth {
    fn text(&self, n: usize) -> String {
        match *self {
            Growth::Repeat(ref a, ref b, ref c) => {
                let mut t = a.clone();
                for i in 0..n {
                    t += &b[i % b.len()].replace("{n}", &i.to_string());
                }
                t + c
            }
            Growth::Nest(ref a, ref b, ref c, closed, ref d) => {
                let mut t = a.clone();
                for i in 0..n {
                    t += &b[i % b.len()].0;
                }
                t += c;
                if closed {
                    for i in (0..n).rev() {
                        t += &b[i % b.len()].1;
                    }
                }
                t + d
            }
        }
    }
}

fn pick<'a>(s: &mut Src, v: &[&'a str]) -> &'a str {
    v[s.usize(v.len())]
}

fn value_text(s: &mut Src, depth: usize) -> String {
    crate::grow::value_text(s, depth, Cfg::valid())
}

fn growth(s: &mut Src) -> (&'static str, Growth) {
    const TOKENS: [&str; 24] = [
        "[", "]", "{", "}", "=", ",", ".", "\"", "'", "#", "\n", " ", "\t", "\\", "a", "1", "-", "_", "\"\"\"", "'''", "\r\n", "[[", "a = ", "\u{e9}",
    ];
    let before = match s.usize(4) {
        0 => String::new(),
        1 => "x = 1\n".into(),
        2 => {
            let m = mode(s, [3, 2, 1, 1, 1]);
            text_of(s, m)
        }
        _ => "[first]\n".into(),
    };
    let after = match s.usize(4) {
        0 => String::new(),
        1 => "\ny = 1\n".into(),
        2 => format!("\n{}", bad_statement(s)),
        _ => pick(s, &TOKENS).into(),
    };
    match s.usize(9) {
        0 => {
            let m = mode(s, [3, 3, 2, 2, 1]);
            let t = text_of(s, m);
            ("statements", Growth::Repeat(before, vec![t], after))
        }
        1 => {
            const KEYS: [&str; 10] = ["k{n}", "\"k {n}\"", "a", "a.b{n}", "a{n}.b", "a.b.c", "t{n}", "t", "{n}", "t.k{n}"];
            let n = 1 + s.usize(4);
            let v = (0..n)
                .map(|_| {
                    let k = pick(s, &KEYS);
                    match s.usize(5) {
                        0 => format!("[{}]\n", k),
                        1 => format!("[[{}]]\n", k),
                        2 => pick(s, &["\n", "# c\n", "  \t\n", "#\r\n", " # {n}\n"]).to_string(),
                        _ => format!("{} ={}\n", if k.contains('.') { "k{n}" } else { k }, value_text(s, 2)),
                    }
                })
                .collect();
            ("numbered statements", Growth::Repeat(before, v, after))
        }
        2 => {
            let n = 1 + s.usize(3);
            let sep = pick(s, &[",", ", ", ",\n", " , # c\n", "\n,\n\n"]);
            let v = (0..n).map(|_| format!("{}{}", value_text(s, 2), sep)).collect();
            let end = pick(s, &["]", "]", "]]", "", "1]", " #]\n]"]);
            ("array", Growth::Repeat(format!("{}\na = [", before), v, format!("{}{}", end, after)))
        }
        3 => {
            let n = 1 + s.usize(3);
            let v = (0..n).map(|i| format!("{}{} = {}, ", ["k{n}", "j", "\"{n}\""][s.usize(3)], i, value_text(s, 2))).collect();
            let end = pick(s, &["z = 1}", "z = 1}", "", "}", "z}", "z = 1]"]);
            ("inline table", Growth::Repeat(format!("{}\na = {{", before), v, format!("{}{}", end, after)))
        }
        4 => {
            let q = pick(s, &["\"", "'", "\"\"\"", "'''", "#"]);
            let n = 1 + s.usize(3);
            let v = (0..n)
                .map(|_| if s.bool() { pick(s, &TOKENS).to_string() } else { pick(s, &["\\n", "\\u00e9", "\\", "\\\n  ", "x", "\n", "\"", "''", "\\\"", "\\\\"]).to_string() })
                .collect();
            let end = if s.bool() { q } else { "" };
            ("string", Growth::Repeat(format!("{}\na = {}", before, q), v, format!("{}{}", end, after)))
        }
        5 => {
            let k = pick(s, &["a.", "\"a\".", " a . ", "k{n}.", "\"{n}\" ."]);
            let two = s.bool();
            ("key path", Growth::Repeat(format!("{}\n{}", before, if two { "[[" } else { "[" }), vec![k.into()], format!("b{}\nc = 1\n{}", if two { "]]" } else { "]" }, after)))
        }
        6 => {
            let t = pick(s, &["1", "0", "_1", "1_", "1.", "e1", "-", "9", ":1", "1-"]);
            let h = pick(s, &["1", "-1", "1.", "1e", "1979-05-27T", "1979-05-27T07:32:00.", "+", "0."]);
            ("number", Growth::Repeat(format!("{}\na = {}", before, h), vec![t.into()], after))
        }
        7 => {
            let n = 1 + s.usize(3);
            const OPEN: [(&str, &str); 14] = [
                ("[", "]"), ("{b = ", "}"), ("[ #c\n", "]"), ("[1, ", "]"), ("[[1], ", "]"), ("[", ", 1]"), ("[", ",\n]"), ("[", " # c\n , [ ] ]"), ("{a = 1, b = ", "}"),
                ("{b = ", ", c = 1}"), ("{b = ", ", b = 1}"), ("[{}, ", "]"), ("[{a = [", "]}]"), ("[\"\", ", ", \"\"]"),
            ];
            let v = (0..n)
                .map(|_| {
                    let o = OPEN[s.usize(14)];
                    (o.0.to_string(), o.1.to_string())
                })
                .collect();
            let inside = if s.bool() { value_text(s, 1) } else { pick(s, &["", "1", "x", "1 2", "{", "]", "1,,", "\"", "# c"]).to_string() };
            let closed = s.chance(3, 4);
            ("nesting", Growth::Nest(format!("{}\na = ", before), v, inside, closed, after))
        }
        _ => {
            let m = mode(s, [3, 2, 2, 1, 1]);
            let t = text_of(s, m);
            let mut i = s.usize(t.len() + 1);
            while !t.is_char_boundary(i) {
                i -= 1;
            }
            let n = 1 + s.usize(3);
            let v = (0..n).map(|_| pick(s, &TOKENS).to_string()).collect();
            ("tokens", Growth::Repeat(t[..i].to_string(), v, t[i..].to_string()))
        }
    }
}

/// What an operation on a document of so many bytes may cost at most: several times what the worst ones found cost.
fn allowed(len: usize) -> Cost {
    let n = len as u64 + 40;
    Cost { steps: 1000 * n + n * n, bytes: 8_000_000 + 20_000 * n + 8 * n * n }
}

/// Measures an operation; what is only done once, such as compiling an expression, does not count.
fn within<T>(what: &str, len: usize, peak: &mut Peak, mut f: impl FnMut() -> (T, Cost)) -> Result<T, String> {
    let a = allowed(len);
    let (mut r, mut c) = f();
    for _ in 0..3 {
        if c.steps <= a.steps && c.bytes <= a.bytes {
            break;
        }
        let again = f();
        r = again.0;
        c = again.1;
    }
    peak.steps = peak.steps.max(c.steps as f64 / a.steps as f64);
    peak.bytes = peak.bytes.max(c.bytes as f64 / a.bytes as f64);
    ensure!(c.steps <= a.steps, "{} of {} bytes takes {} steps, more than {}", what, len, c.steps, a.steps);
    ensure!(c.bytes <= a.bytes, "{} of {} bytes takes {} bytes of memory, more than {}", what, len, c.bytes, a.bytes);
    Ok(r)
}

fn depth(m: &MVal) -> usize {
    match *m {
        MVal::Arr(ref v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        MVal::Inl(ref v) => 1 + v.iter().map(|e| depth(&e.1)).max().unwrap_or(0),
        _ => 0,
    }
}

/// Changes a value at one place, mostly one of the innermost.
fn deep_change(s: &mut Src, m: &MVal) -> MVal {
    let kids: Vec<&MVal> = match *m {
        MVal::Arr(ref v) => v.iter().collect(),
        MVal::Inl(ref v) => v.iter().map(|e| &e.1).collect(),
        _ => vec![],
    };
    if kids.is_empty() {
        return match s.usize(6) {
            0 => MVal::Arr(vec![m.clone()]),
            1 => MVal::Inl(vec![("k".into(), m.clone())]),
            2 | 3 => bad_value(s),
            _ => any_scalar(s, 1),
        };
    }
    let deepest = (0..kids.len()).max_by_key(|&i| depth(kids[i])).unwrap();
    let i = if s.chance(3, 4) { deepest } else { s.usize(kids.len()) };
    let drop = depth(kids[i]) == 0 && s.chance(1, 4);
    let new = deep_change(s, kids[i]);
    let mut m = m.clone();
    match m {
        MVal::Arr(ref mut v) if drop => drop_at(v, i),
        MVal::Inl(ref mut v) if drop => drop_at(v, i),
        MVal::Arr(ref mut v) => v[i] = new,
        MVal::Inl(ref mut v) => v[i].1 = new,
        _ => (),
    }
    m
}

fn drop_at<T>(v: &mut Vec<T>, i: usize) {
    v.remove(i);
}

#[derive(Default)]
struct Peak {
    steps: f64,
    bytes: f64,
}

fn c26_grow(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let (name, g) = growth(s);
    c.label(name);
    c.case(&g.text(3));
    c.sample(|| json!({"growth": name, "text of 3": short(&g.text(3))}));
    let nest = matches!(g, Growth::Nest(..));
    let unit = (g.text(8).len() - g.text(4).len()) / 4;
    let most = if c.thorough { 40_000 } else { 16_000 };
    let mut n = 1;
    let mut p = Peak::default();
    loop {
        let t = g.text(n);
        let in_all = |e| format!("{} ({} times {})", e, n, name);
        let (q, o) = within("parsing a text", t.len(), &mut p, || cost(|| parse(&t))).map_err(in_all)?;
        within("displaying a document", t.len(), &mut p, || cost(|| q.to_string())).map_err(in_all)?;
        // nested texts by small steps, so that what doubles with every level is seen in time
        let next = if nest { n + 1 + n / 4 } else { n * 2 };
        let len = g.text(next).len();
        let done = if nest { next > 64 / unit.clamp(1, 4) } else { len > most };
        if !done && len > t.len() {
            n = next;
            continue;
        }
        c.label(o.name);
        c.nontrivial = n >= 8;
        // reading and editing what is there
        let x = Expect::of(&t);
        if x.undefined || x.entries.is_empty() {
            return Ok(());
        }
        for _ in 0..3 {
            let e = &x.entries[s.usize(x.entries.len())];
            within("get_value in a document", t.len(), &mut p, || cost(|| calls::get_value(&q, &e.key))).map_err(in_all)?;
            within("get_children in a document", t.len() * (1 + e.key.len() / 8), &mut p, || {
                cost(|| calls::get_children(&q, &e.key).map(|ch| calls::combine_child_keys(ch, &e.key)))
            })
            .map_err(in_all)?;
            let old = match e.val {
                Some(ref v) => v.clone(),
                None => continue,
            };
            let new = match s.weighted(&[2, 2, 4]) {
                0 => old.clone(),
                1 => new_value(s, &old),
                _ => deep_change(s, &old),
            };
            let size = t.len() + new.text("").len();
            let v = to_value(&new);
            within("validating a value", size, &mut p, || cost(|| v.validate())).map_err(in_all)?;
            within("displaying a value", size, &mut p, || cost(|| v.to_string())).map_err(in_all)?;
            within("comparing a value", size, &mut p, || cost(|| v == to_value(&new))).map_err(in_all)?;
            let key = &e.key[..];
            let set = || {
                let (mut q, _) = parse(&t);
                let v = to_value(&new);
                let (r, c) = cost(|| calls::set_value(&mut q, key, v));
                ((q, r), c)
            };
            let (mut q, done) = within("set_value in a document", size, &mut p, set).map_err(in_all)?;
            c.label(if done { "set" } else { "set rejected" });
            // the edited document is read, displayed and edited again
            within("get_value in an edited document", size, &mut p, || cost(|| calls::get_value(&q, key))).map_err(in_all)?;
            within("displaying an edited document", size, &mut p, || cost(|| q.to_string())).map_err(in_all)?;
            let (mut steps, mut bytes) = (0, 0);
            let times = 12;
            for i in 0..times {
                let v = to_value(if i % 2 == 0 { &old } else { &new });
                let (_, k) = cost(|| calls::set_value(&mut q, key, v));
                steps += k.steps;
                bytes += k.bytes;
            }
            within("setting a value again and again", size * times, &mut p, || ((), Cost { steps, bytes })).map_err(in_all)?;
            break;
        }
        if std::env::var("VERIF_PEAKS").is_ok() {
            println!("PEAK {:.4} {:.4} {} {} {:?}", p.steps, p.bytes, t.len(), name, short(&g.text(3)));
        }
        return Ok(());
    }
}

// ------------------------------------------------------------------------------------------------------------ C27

/// One document of a session, what is set in it and what is read from it.
struct Part27 {
    text: String,
    entries: Vec<Entry>,
    edits: Vec<(String, MVal, usize)>,
    kind: usize,
}

/// Reads all that can be reached from a key.
fn walk(p: &TOMLParser, key: &str, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    calls::get_value(p, key);
    if let Some(ch) = calls::get_children(p, key) {
        for k in calls::combine_child_keys(ch, key) {
            walk(p, &k, left);
        }
    }
}

/// A value that has not been there before, with another one in it.
fn numbered(m: &MVal, how: usize, n: usize) -> MVal {
    let text = MVal::Str(format!("v{}", n), St::Literal);
    match how {
        0 => m.clone(),
        1 => MVal::Inl(vec![(format!("key{}", n), m.clone()), (format!("\"n {}\"", n), text)]),
        2 => MVal::Arr((0..6).map(|_| text.clone()).collect()),
        3 => MVal::Int(format!("1{}", n)),
        4 => MVal::Float(format!("{}.5", n)),
        _ => MVal::Arr(vec![m.clone(), MVal::Arr(vec![]), MVal::Inl(vec![]), text]),
    }
}

/// Everything a program does with a few documents. No text, key or value is the same another time, so that a store
/// of them grows.
fn session(parts: &[Part27], reuse: bool, ctors: bool, n: usize) {
    let texts: Vec<String> = parts
        .iter()
        .map(|t| match t.kind {
            0 => format!("{}\n# {}\nq{} = {}\n", t.text, n, n, n),
            1 => format!("own-{} = [{}, 2, [3, \"{}\"], {{ k{} = 1 }}]\n{}", n, n, n, n, t.text),
            _ => format!("{}\n[own-{}]\nk{} = {{ a = {} }}\n[[u.own-{}]]\n[[u.own-{}]]\na = 1\na = {}\n", t.text, n, n, n, n, n, n),
        })
        .collect();
    let mut p = TOMLParser::new();
    for (t, text) in parts.iter().zip(&texts) {
        if !reuse {
            p = TOMLParser::new();
        }
        let (q, r) = p.parse(text);
        p = q;
        outcome(&r);
        for e in &t.entries {
            calls::get_value(&p, &e.key);
            calls::get_children(&p, &e.key).map(|c| calls::combine_child_keys(c, &e.key));
        }
        let own = [format!("q{}", n), format!("own-{}", n), format!("own-{}.k{}", n, n)][t.kind].clone();
        for (i, (k, v, how)) in t.edits.iter().enumerate() {
            let v = to_value(&numbered(v, *how, n));
            v.validate();
            v.to_string();
            let k = if i % 3 == 2 { &own } else { k };
            calls::set_value(&mut p, k, v);
            calls::get_value(&p, k);
        }
        if !t.edits.is_empty() {
            walk(&p, "", &mut 60);
        }
        calls::get_value(&p, &format!("none-{}", n));
        p.to_string();
    }
    if ctors {
        build(n);
    }
}

/// Builds values that have not been there before.
fn build(n: usize) {
    let all = Value::Array(std::rc::Rc::new(made_of(n).drain(..).filter_map(|m| m.ok()).collect()));
    all.validate();
    all.to_string();
    let _ = calls::datetime_parse(&format!("{:0>4}-02-03T04:05:06.{}Z", n % 9999 + 1, n)).map(|v| v == all);
}

/// Values and errors that a number makes, with all constructors.
pub fn made_of(n: usize) -> Vec<Result<Value<'static>, TOMLError>> {
    let t = n.to_string();
    let year = n % 9999 + 1;
    let y = format!("{:0>4}", year);
    let mut made = vec![
        calls::int_from_str(&t),
        calls::int_from_str(&format!("{}x", t)),
        calls::float_from_str(&format!("{}.0", t)),
        calls::float_from_str(&t),
        calls::bool_from_str(&t),
        calls::basic_string(&t),
        calls::basic_string(&format!("\"{}", t)),
        calls::ml_basic_string(&t),
        calls::literal_string(&t),
        calls::ml_literal_string(&format!("'''{}", t)),
        calls::date_from_str(&y, "02", "03"),
        calls::datetime_from_str(&y, "02", "03", "04", "05", "06"),
        calls::datetime_frac_from_str(&y, "02", "03", "04", "05", "06", &t),
        calls::datetime_full_from_str(&y, "02", "30", "04", "05", "06", &t, "+", "01", "00"),
        Value::date_from_int(year, 2, 3),
        Value::date_from_int(year, 2, 30),
        Value::datetime_from_int(year, 2, 3, 4, 5, 6),
        Value::datetime_frac_from_int(year, 2, 3, 4, 5, 6, n),
        Value::datetime_offset_from_int(year, 2, 3, 4, 5, 6, '-', 1, 2),
        Value::datetime_full_from_int(year, 2, 3, 4, 5, 6, n as u64, '-', 1, 2),
        Value::datetime_zulu_from_int(year, 2, 3, 4, 5, 6),
        Value::datetime_full_zulu_from_int(year, 2, 3, 4, 5, 6, n as u64),
    ];
    made.push(Ok(Value::int(n as i64)));
    made.push(Ok(Value::float(n as f64 / 2.0)));
    made
}

fn c27_session(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let n = 1 + s.weighted(&[4, 2, 1]);
    let mut parts = vec![];
    for _ in 0..n {
        let m = mode(s, [4, 4, 2, 1, 2]);
        let t = text_of(s, m);
        c.case(&t);
        let x = Expect::of(&t);
        let mut es = vec![];
        for _ in 0..s.usize(5) {
            let how = s.weighted(&[6, 1, 1, 1, 1, 1]);
            let k = odd_key(s, &x.entries);
            if s.chance(2, 3) && !x.entries.is_empty() {
                let e = &x.entries[s.usize(x.entries.len())];
                if let Some(ref v) = e.val {
                    let v = new_value(s, v);
                    es.push((e.key.clone(), v, how));
                    continue;
                }
            }
            let v = odd_value(s, 2);
            es.push((k, v, how));
        }
        c.label_if(!es.is_empty(), "edits");
        parts.push(Part27 { text: t, entries: x.entries, edits: es, kind: s.usize(3) });
    }
    let reuse = s.bool();
    let ctors = s.chance(1, 8);
    c.label_if(n > 1, "several documents");
    c.label_if(ctors, "values built");
    c.sample(|| json!({"texts": parts.iter().map(|t| short(&t.text)).collect::<Vec<_>>()}));
    c.nontrivial = parts.iter().any(|t| t.text.len() > 3);
    // what is kept for good, compiled expressions and the like, is kept the first times
    let mut next = 1000 * (1 + s.usize(9)) + s.usize(500);
    let mut live = |times: usize| {
        for _ in 0..times {
            session(&parts, reuse, ctors, next);
            next += 1;
        }
        meter::live()
    };
    // a list of something does not take more memory every time, but at the latest whenever it has doubled
    if s.chance(1, 40) {
        c.label("long");
        let mut last = live(25);
        for times in [40, 80, 160, 320] {
            let now = live(times);
            if now <= last {
                return Ok(());
            }
            last = now;
        }
        return Err("when these calls are made some hundred times, memory keeps growing".into());
    }
    let mut last = None;
    let mut grown = 0;
    for i in 0..20 {
        let now = live(1);
        match last {
            Some(l) if now > l => grown += 1,
            _ => grown = 0,
        }
        if grown == 0 && i > 1 {
            return Ok(());
        }
        last = Some(now);
    }
    Err("each of 20 times that these calls are made some memory is not given back".into())
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &["the harness builds /repo with a copy of nom 1.2.4 that only adds a per-thread cache of compiled regular expressions"];
    let part = |name, quick: u64, thorough: u64, f: CaseFn| Part { name, quick, thorough, exhaustive: false, f };
    vec![
        Check {
            id: "C26",
            rule: "texts in which statements, elements, members, characters, path segments or levels of nesting are repeated 1, 2, 4, ... times up to 16,000 (thorough: 40,000) bytes or 64 levels, among arbitrary statements: parsed, displayed, read and edited; non-trivial: repeated at least 8 times",
            assumptions: A,
            findings: &[],
            parts: vec![part("grow", 8_000, 200_000, c26_grow)],
        },
        Check {
            id: "C27",
            rule: "one to three generated texts (valid, with errors, damaged) parsed, read and edited with valid and invalid values, three times or more (one in 40: up to 625 times), with other keys and values every time; non-trivial: more than 3 bytes of text",
            assumptions: A,
            findings: &[],
            parts: vec![part("session", 60_000, 1_500_000, c27_session)],
        },
    ]
}
