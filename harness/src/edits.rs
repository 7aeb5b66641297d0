//! The checks of set_value: what an edit does to the document, and what it leaves alone.
use crate::ast::*;
use crate::checks::*;
use crate::ensure;
use crate::gen::*;
use crate::obs::*;
use crate::refparse;
use crate::runner::*;
use crate::tape::*;
use serde_json::json;
use tomllib::TOMLParser;

/// A value every part of which can be written in a document.
pub fn writable(m: &MVal) -> bool {
    match *m {
        MVal::Int(ref s) => refparse::int_ok(s),
        MVal::Float(ref s) => refparse::float_ok(s),
        MVal::Bool(_) => true,
        MVal::Dt(ref d) => d.exists(),
        MVal::Str(ref s, t) => refparse::str_ok(s, t),
        MVal::Arr(ref v) => v.iter().all(writable),
        MVal::Inl(ref v) => {
            v.iter().enumerate().all(|(i, (k, x))| refparse::key_ok(k) && writable(x) && v[..i].iter().all(|p| p.0 != *k))
        }
    }
}

/// A value of the same structure with other scalars.
fn rescalar(s: &mut Src, m: &MVal, percent: u32) -> MVal {
    match *m {
        MVal::Arr(ref v) => MVal::Arr(v.iter().map(|x| rescalar(s, x, percent)).collect()),
        MVal::Inl(ref v) => MVal::Inl(v.iter().map(|(k, x)| (k.clone(), rescalar(s, x, percent))).collect()),
        ref x => {
            if s.chance(percent, 100) {
                if s.chance(1, 3) {
                    near_scalar(s, x)
                } else {
                    any_scalar(s, 2)
                }
            } else {
                x.clone()
            }
        }
    }
}

fn spare(v: &[(String, MVal)], s: &mut Src) -> String {
    let mut i = s.usize(KEYS.len());
    loop {
        let k = if i < KEYS.len() { KEYS[i].to_string() } else { format!("spare{}", i) };
        if v.iter().all(|p| p.0 != k) {
            return k;
        }
        i += 1;
    }
}

/// A name that a careless comparison takes for `k`.
fn near_key(s: &mut Src, k: &str) -> String {
    let quoted = k.len() >= 2 && k.starts_with('"');
    let body = if quoted { &k[1..k.len() - 1] } else { k };
    let new = match s.usize(5) {
        0 => {
            let flip = |c: char| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
            body.chars().map(flip).collect()
        }
        1 => format!("{}a", body),
        2 if body.is_ascii() && body.len() > 1 => body[..body.len() - 1].to_string(),
        3 => format!("\"{} \"", body),
        _ if quoted => body.to_string(),
        _ => format!("\"{}\"", body),
    };
    let new = if quoted && refparse::key_ok(&format!("\"{}\"", new)) && s.bool() { format!("\"{}\"", new) } else { new };
    if refparse::key_ok(&new) {
        new
    } else {
        k.to_string()
    }
}

/// A value of almost the same structure: one array or inline table in it is changed by one element.
fn restructure(s: &mut Src, m: &MVal) -> MVal {
    let fresh = |s: &mut Src| {
        let d = s.usize(2);
        Gen::new(s, Cfg::valid()).mval(d, None)
    };
    match *m {
        MVal::Arr(ref v) => {
            let mut v = v.clone();
            let n = v.len();
            if n > 0 && s.chance(1, 3) {
                let i = s.usize(n);
                v[i] = restructure(s, &v[i]);
                return MVal::Arr(v);
            }
            match s.usize(4) {
                0 => v.push(fresh(s)),
                1 if n > 0 => {
                    v.remove(s.usize(n));
                }
                2 => v.clear(),
                _ => v.insert(s.usize(n + 1), fresh(s)),
            }
            MVal::Arr(v)
        }
        MVal::Inl(ref v) => {
            let mut v = v.clone();
            let n = v.len();
            if n > 0 && s.chance(1, 3) {
                let i = s.usize(n);
                v[i].1 = restructure(s, &v[i].1);
                return MVal::Inl(v);
            }
            match s.usize(7) {
                0 => {
                    let k = spare(&v, s);
                    v.push((k, fresh(s)))
                }
                5 if n > 0 => {
                    // almost the same name
                    let i = s.usize(n);
                    let k = near_key(s, &v[i].0);
                    if v.iter().all(|p| p.0 != k) {
                        v[i].0 = k;
                    }
                }
                1 if n > 0 => {
                    v.remove(s.usize(n));
                }
                2 => v.clear(),
                3 if n > 0 => {
                    let i = s.usize(n);
                    let k = spare(&v, s);
                    v[i].0 = k;
                }
                4 if n > 1 => {
                    // the same pairs in another order
                    let i = s.usize(n - 1);
                    v.swap(i, i + 1);
                }
                _ => {
                    let k = spare(&v, s);
                    let i = s.usize(n + 1);
                    v.insert(i, (k, fresh(s)))
                }
            }
            MVal::Inl(v)
        }
        _ => {
            let k = 5 + s.usize(2);
            Gen::new(s, Cfg::valid()).mval(2, Some(k))
        }
    }
}

/// A value that can be set, given the one that is there.
pub fn new_value(s: &mut Src, old: &MVal) -> MVal {
    let v = match s.weighted(&[3, 4, 3, 2]) {
        0 => any_scalar(s, 2),
        1 => rescalar(s, old, 60),
        2 => restructure(s, old),
        _ => {
            let d = 1 + s.usize(2);
            let mut cfg = Cfg::valid();
            cfg.mixed = 15;
            Gen::new(s, cfg).mval(d, None)
        }
    };
    if writable(&v) {
        v
    } else {
        // the value that was there had a duplicate key or a date that does not exist
        MVal::Arr(vec![any_scalar(s, 2)])
    }
}

/// A value that cannot be written: somewhere in it is something that is no TOML value.
pub fn bad_value(s: &mut Src) -> MVal {
    let mut bad = match s.usize(8) {
        0 => MVal::Int(["", "01", "1_", "_1", "+", "1__2", "0x1", "1 ", " 1", "1.0", "a", "--1", "\u{663}", "1\n", "1#", "1,"][s.usize(16)].into()),
        1 => MVal::Float(
            ["", "1", "1.", ".5", "1e", "01.5", "1.5e", "nan", "inf", "1.5.5", "1._5", "1.5 ", "\u{661}.\u{662}", "1.5]", "1e1.5", "+-1.5"]
                [s.usize(16)]
            .into(),
        ),
        2 => MVal::Dt(bad_date(s)),
        3 => {
            let mut d = date(s);
            match s.usize(8) {
                0 => d.y = ["200", "20000", "+200", "a000", ""][s.usize(5)].into(),
                1 => d.mo = ["1", "+1", "001", "", "a1"][s.usize(5)].into(),
                2 => d.d = ["1", "+1", "001", "", " 1"][s.usize(5)].into(),
                i => {
                    let t = d.tm.get_or_insert(Tm { h: "01".into(), m: "02".into(), s: "03".into(), frac: None, off: Off::None });
                    let two = ["1", "+1", "001", "", "1 "][s.usize(5)].to_string();
                    match i {
                        3 => t.h = two,
                        4 => t.m = two,
                        5 => t.s = two,
                        6 => t.frac = Some(["", "a", "+1", "1.5", " "][s.usize(5)].into()),
                        _ => {
                            t.off = if s.bool() { Off::Amount('-', two, "00".into()) } else { Off::Amount('+', "00".into(), two) }
                        }
                    }
                }
            }
            MVal::Dt(d)
        }
        4 => MVal::Str(["\"", "\n", "\\", "\\x", "a\"b", "\\u12", "\t", "\u{1}", "\\U0011000", "\r"][s.usize(10)].into(), St::Basic),
        5 => MVal::Str(["\"\"\"", "\\", "\\x", "a\"", "\"", "\u{0}", "\r", "x\"\"\"y", "\\u00g0"][s.usize(9)].into(), St::MlBasic),
        6 => MVal::Str(["'", "\n", "a'b", "\u{0}", "\r\n", "\u{1f}", "'''"][s.usize(7)].into(), St::Literal),
        _ => MVal::Str(["'''", "'", "a''", "\u{b}", "\r", "x'''y"][s.usize(6)].into(), St::MlLiteral),
    };
    if s.chance(1, 6) {
        // an inline table with a bad key
        let k = ["", "a b", "a.b", "'a'", "\"\"", "\"a", "a\"", "\u{e9}", " a", "a ", "a=1", "\"a\"b", "[a]", "a\n", "#"][s.usize(15)];
        bad = MVal::Inl(vec![(k.to_string(), any_scalar(s, 0))]);
    } else if s.chance(1, 8) {
        let (a, b) = (any_scalar(s, 0), any_scalar(s, 0));
        bad = MVal::Inl(vec![("a".into(), a), ("b".into(), MVal::Bool(true)), ("a".into(), b)]);
    }
    let n = s.weighted(&[3, 2, 1, 1]);
    for _ in 0..n {
        if s.bool() {
            let mut v: Vec<MVal> = (0..s.usize(3)).map(|_| any_scalar(s, 0)).collect();
            v.insert(s.usize(v.len() + 1), bad);
            bad = MVal::Arr(v);
        } else {
            let mut v: Vec<(String, MVal)> = (0..s.usize(3)).map(|i| (format!("k{}", i), any_scalar(s, 0))).collect();
            v.insert(s.usize(v.len() + 1), ("bad".into(), bad));
            bad = MVal::Inl(v);
        }
    }
    bad
}

/// The document and its text, ready to be edited.
struct Edited<'a> {
    p: TOMLParser<'a>,
    x: Expect,
    log: Vec<String>,
}

fn start<'a>(t: &'a str) -> Option<Edited<'a>> {
    let x = Expect::of(t);
    if x.undefined {
        return None;
    }
    let (p, _) = parse(t);
    Some(Edited { p, x, log: vec![] })
}

impl<'a> Edited<'a> {
    /// The keys with a value: numbers of entries.
    fn valued(&self) -> Vec<usize> {
        (0..self.x.entries.len()).filter(|&i| self.x.entries[i].at.is_some()).collect()
    }
    fn set(&mut self, i: usize, m: &MVal) -> Res {
        let key = self.x.entries[i].key.clone();
        let at = self.x.entries[i].at.clone().unwrap();
        self.log.push(format!("set_value({:?}, {})", key, m.text(brace())));
        ensure!(calls::set_value(&mut self.p, &key, to_value(m)), "set_value({:?}, {}) is false", key, m.text(brace()));
        let mut doc = self.x.doc.clone();
        if let Kind::KeyVal { ref mut val, .. } = doc.items[at.0].kind {
            val.at(&at.1).set(m);
        }
        let x = Expect::of_doc(&doc);
        let got = self.p.get_value(key.clone()).as_ref().map(to_mval);
        ensure!(got.as_ref() == Some(m), "after set_value({:?}, {}) the value is {:?}", key, m.text(brace()), got);
        self.x = x;
        self.shown()
    }
    fn shown(&self) -> Res {
        let d = self.p.to_string();
        let want = &self.x.text[..self.x.end];
        ensure!(d == want, "after {} the document is {:?}, expected {:?}", self.log.join("; "), d, want);
        Ok(())
    }
    fn view(&self) -> Res {
        check_view(&self.p, &self.x.entries).map_err(|e| format!("after {}: {}", self.log.join("; "), e))
    }
}

fn edit_text(s: &mut Src) -> String {
    let m = mode(s, [8, 4, 1, 0, 1]);
    text_of(s, m)
}

fn begin(c: &mut Ctx, t: &str) {
    c.case(t);
}

// ------------------------------------------------------------------------------------------------------------ C13

fn c13_scalar(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = edit_text(s);
    begin(c, &t);
    let mut e = match start(&t) {
        Some(e) => e,
        None => return Ok(()),
    };
    let v: Vec<usize> = e.valued().into_iter().filter(|&i| e.x.entries[i].val.as_ref().unwrap().is_scalar()).collect();
    if v.is_empty() {
        return Ok(());
    }
    let i = v[s.usize(v.len())];
    let old = e.x.entries[i].clone();
    let m = if s.chance(1, 3) { near_scalar(s, old.val.as_ref().unwrap()) } else { any_scalar(s, 2) };
    c.case(&format!("{} {:?}", old.key, m));
    c.sample(|| json!({"text": short(&t), "key": old.key, "value": m.json()}));
    let span = e.x.layout.vals[old.at.as_ref().unwrap()].clone();
    let want = format!("{}{}{}", &e.x.text[..span.start], m.text(""), &e.x.text[span.end..e.x.end]);
    // and nothing that only exists in the text moves
    let want = want.as_str();
    c.nontrivial = old.val.as_ref() != Some(&m);
    c.label(if old.val.as_ref().unwrap().kind() == m.kind() { "same type" } else { "other type" });
    c.label_if(old.at.as_ref().unwrap().1.len() > 0, "within another value");
    ensure!(calls::set_value(&mut e.p, &old.key, to_value(&m)), "set_value({:?}, {}) is false", old.key, m.text(""));
    let shown = e.p.to_string();
    ensure!(shown == want, "after set_value({:?}, {}) the document is {:?}, expected {:?}", old.key, m.text(""), shown, want);
    let at = old.at.unwrap();
    let mut doc = e.x.doc.clone();
    if let Kind::KeyVal { ref mut val, .. } = doc.items[at.0].kind {
        *val.at(&at.1) = Val::Scalar(m.clone());
    }
    e.x = Expect::of_doc(&doc);
    e.log.push(format!("set_value({:?}, {})", old.key, m.text("")));
    e.view()
}

/// All scalars of a document, one after another.
fn c13_all(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 6, ..Cfg::valid() }).text();
    begin(c, &t);
    c.sample(|| json!({ "text": short(&t) }));
    let mut e = start(&t).unwrap();
    let v: Vec<usize> = e.valued().into_iter().filter(|&i| e.x.entries[i].val.as_ref().unwrap().is_scalar()).collect();
    c.nontrivial = v.len() > 1;
    let n = v.len();
    for (j, i) in v.into_iter().enumerate() {
        // of very many, the first and the last ones and some between
        if n > 150 && j > 50 && j + 50 < n && j % (n / 50) > 0 {
            continue;
        }
        let m = if s.chance(1, 3) { near_scalar(s, e.x.entries[i].val.as_ref().unwrap()) } else { any_scalar(s, 2) };
        e.set(i, &m)?;
    }
    e.view()
}

// ------------------------------------------------------------------------------------------------------------ C14

fn c14_structure(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = edit_text(s);
    begin(c, &t);
    let mut e = match start(&t) {
        Some(e) => e,
        None => return Ok(()),
    };
    let v = e.valued();
    if v.is_empty() {
        return Ok(());
    }
    // prefer arrays and inline tables
    let nested: Vec<usize> = v.iter().cloned().filter(|&i| !e.x.entries[i].val.as_ref().unwrap().is_scalar()).collect();
    let i = if !nested.is_empty() && s.chance(3, 4) { nested[s.usize(nested.len())] } else { v[s.usize(v.len())] };
    let old = e.x.entries[i].val.clone().unwrap();
    let m = new_value(s, &old);
    c.case(&format!("{} {:?}", e.x.entries[i].key, m));
    c.sample(|| json!({"text": short(&t), "key": e.x.entries[i].key, "value": m.json()}));
    c.nontrivial = !(old.is_scalar() && m.is_scalar());
    c.label(match (&old, &m) {
        (o, n) if o.is_scalar() && n.is_scalar() => "scalar to scalar",
        (o, _) if o.is_scalar() => "scalar to array or inline table",
        (_, n) if n.is_scalar() => "array or inline table to scalar",
        (&MVal::Arr(_), &MVal::Arr(_)) => "array to array",
        (&MVal::Inl(_), &MVal::Inl(_)) => "inline table to inline table",
        _ => "array to inline table or back",
    });
    e.set(i, &m)?;
    e.view()
}

/// Arrays and inline tables given every value of a small family, one after another.
fn c14_pairs(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let mut cfg = Cfg::valid();
    cfg.nested = 60;
    let kind = 5 + s.usize(2);
    let depth = 1 + s.usize(3);
    let mut g = Gen::new(s, cfg);
    let m = g.mval(depth, Some(kind));
    let val = g.format(&m);
    let item = |k: &str, v: Val| Item {
        pre: String::new(),
        kind: Kind::KeyVal { key: k.into(), ws1: " ".into(), ws2: " ".into(), val: v },
        post: " ".into(),
        comment: Some(" kept".into()),
        nl: "\n".into(),
    };
    let t = Doc { items: vec![item("before", Val::Scalar(MVal::Bool(true))), item("a", val), item("c", Val::Scalar(MVal::Bool(true)))] }.text();
    begin(c, &t);
    c.sample(|| json!({ "text": short(&t), "value": m.json() }));
    c.nontrivial = true;
    let mut e = start(&t).unwrap();
    for _ in 0..1 + s.usize(3) {
        let v: Vec<usize> = e.valued().into_iter().filter(|&i| e.x.entries[i].key.starts_with('a')).collect();
        let i = v[s.usize(v.len())];
        let old = e.x.entries[i].val.clone().unwrap();
        let m = if s.bool() { restructure(s, &old) } else { rescalar(s, &old, 50) };
        e.set(i, &m)?;
    }
    e.view()
}

/// The probe of the recorded finding on the formatting of inline tables.
pub fn brace_finding() -> Option<String> {
    if brace() == " " {
        Some(
            "set_value(\"a\", {k = 1}) on \"a = 1\" displays \"a = { k = 1 }\": the default formatting puts spaces inside the braces of an inline table, the documentation says there are none"
                .into(),
        )
    } else {
        None
    }
}

// ------------------------------------------------------------------------------------------------------------ C15

fn history_in<'a>(s: &mut Src, c: &mut Ctx, t: &'a str, max: usize, rejected: bool) -> Option<Result<Edited<'a>, String>> {
    let mut e = start(t)?;
    let n = s.size.filter(|_| s.stretch == REPEAT).map_or_else(|| 2 + s.usize(max - 1), |n| n.min(80) + 1);
    let mut structural = 0;
    for _ in 0..n {
        let v = e.valued();
        if v.is_empty() {
            return None;
        }
        if rejected && s.chance(1, 4) {
            let k = if s.bool() { v[s.usize(v.len())] } else { s.usize(e.x.entries.len()) };
            let bad = if e.x.entries[k].at.is_some() { bad_value(s) } else { any_scalar(s, 2) };
            let key = e.x.entries[k].key.clone();
            e.log.push(format!("rejected set_value({:?}, {:?})", key, bad.text(brace())));
            if calls::set_value(&mut e.p, &key, to_value(&bad)) {
                return Some(Err(format!("set_value({:?}, {:?}) is true", key, bad.text(brace()))));
            }
            c.label("rejected");
        } else {
            let nested: Vec<usize> = v.iter().cloned().filter(|&i| !e.x.entries[i].val.as_ref().unwrap().is_scalar()).collect();
            let i = if !nested.is_empty() && s.bool() { nested[s.usize(nested.len())] } else { v[s.usize(v.len())] };
            let old = e.x.entries[i].val.clone().unwrap();
            let m = new_value(s, &old);
            if !(old.is_scalar() && m.is_scalar()) {
                structural += 1;
            }
            if let Err(m) = e.set(i, &m) {
                return Some(Err(m));
            }
        }
        if let Err(m) = e.shown() {
            return Some(Err(m));
        }
        if s.chance(1, 3) {
            if let Err(m) = e.view() {
                return Some(Err(m));
            }
        }
    }
    c.case(&e.log.join("\n"));
    c.label_if(structural > 1, "several structural edits");
    c.nontrivial = true;
    let log = e.log.clone();
    c.sample(|| json!({"text": short(t), "edits": log}));
    Some(Ok(e))
}

fn c15_history(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = edit_text(s);
    begin(c, &t);
    c.sample(|| json!({ "text": short(&t) }));
    match history_in(s, c, &t, 8, true) {
        None => Ok(()),
        Some(Err(m)) => Err(m),
        Some(Ok(e)) => e.view(),
    }
}

fn c15_long(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 5, nested: 60, ..Cfg::valid() }).text();
    begin(c, &t);
    c.sample(|| json!({ "text": short(&t) }));
    match history_in(s, c, &t, 60, true) {
        None => Ok(()),
        Some(Err(m)) => Err(m),
        Some(Ok(e)) => e.view(),
    }
}

// ------------------------------------------------------------------------------------------------------------ C16

fn c16_rejected(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = edit_text(s);
    begin(c, &t);
    let mut e = match start(&t) {
        Some(e) => e,
        None => return Ok(()),
    };
    if s.chance(1, 3) {
        // after an edit that succeeded
        let v = e.valued();
        if !v.is_empty() {
            let i = v[s.usize(v.len())];
            let m = new_value(s, &e.x.entries[i].val.clone().unwrap());
            e.set(i, &m)?;
        }
    }
    let absent = absent_probes(&e.x.entries);
    let n = s.sized(REPEAT, 60).unwrap_or_else(|| 1 + s.usize(5));
    for _ in 0..n {
        let (key, m, why) = match s.weighted(&[4, 2, 2]) {
            0 => {
                let v = e.valued();
                if v.is_empty() {
                    continue;
                }
                let i = v[s.usize(v.len())];
                let m = bad_value(s);
                if writable(&m) {
                    panic!("harness: {:?} is no bad value", m);
                }
                (e.x.entries[i].key.clone(), m, "invalid value")
            }
            1 => {
                let v: Vec<usize> = (0..e.x.entries.len()).filter(|&i| e.x.entries[i].at.is_none()).collect();
                let i = v[s.usize(v.len())];
                let m = Gen::new(s, Cfg::valid()).mval(2, None);
                (e.x.entries[i].key.clone(), m, "key of a table")
            }
            _ => {
                let k = if !absent.is_empty() && s.chance(3, 4) { absent[s.usize(absent.len())].clone() } else { odd_key(s, &e.x.entries) };
                if e.x.entries.iter().any(|x| x.key == k) {
                    continue;
                }
                let m = Gen::new(s, Cfg::valid()).mval(2, None);
                (k, m, "absent key")
            }
        };
        c.label(why);
        c.nontrivial = true;
        c.case(&format!("{} {:?}", key, m));
        c.sample(|| json!({"text": short(&t), "key": key, "value": m.json(), "why": why}));
        ensure!(!calls::set_value(&mut e.p, &key, to_value(&m)), "set_value({:?}, {:?}) with an {} is true", key, m.text(brace()), why);
        e.log.push(format!("set_value({:?}, {:?}) with an {}", key, m.text(brace()), why));
        e.shown()?;
    }
    e.view()
}

// ------------------------------------------------------------------------------------------------------------ C17

fn c17_reparse(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [8, 4, 0, 0, 1]);
    let t = text_of(s, m);
    begin(c, &t);
    c.sample(|| json!({ "text": short(&t) }));
    let e = match history_in(s, c, &t, 6, false) {
        None => return Ok(()),
        Some(Err(m)) => return Err(m),
        Some(Ok(e)) => e,
    };
    let text = e.p.to_string();
    let (q, o) = parse(&text);
    let x = Expect::of(&text);
    if !x.full() || x.undefined {
        panic!("harness: the edited document {:?} is not TOML", text);
    }
    ensure!(o.leftover.is_none(), "the edited document {:?} is read as {:?}", text, o);
    check_errors(&o, &x, &ALL_ERRORS, false)?;
    same_view(&e.p, &q, "in the edited document", "when it is read again")?;
    same_view(&q, &e.p, "when it is read again", "in the edited document")?;
    ensure!(q.to_string() == text, "the edited document {:?} is displayed as {:?} when it is read again", text, q.to_string());
    // and goes on in the same way
    let v: Vec<_> = e.valued();
    if !v.is_empty() {
        let i = v[s.usize(v.len())];
        let m = new_value(s, &e.x.entries[i].val.clone().unwrap());
        let key = e.x.entries[i].key.clone();
        let (mut p, mut q) = (e.p, q);
        let (a, b) = (calls::set_value(&mut p, &key, to_value(&m)), calls::set_value(&mut q, &key, to_value(&m)));
        ensure!(a == b, "set_value({:?}, {}) is {} in the edited document and {} when it is read again", key, m.text(""), a, b);
        ensure!(
            p.to_string() == q.to_string(),
            "set_value({:?}, {}) gives {:?} in the edited document and {:?} when it is read again",
            key,
            m.text(""),
            p.to_string(),
            q.to_string()
        );
    }
    Ok(())
}

/// Setting what is there changes nothing; setting a value and then the one before it restores the text.
fn c17_laws(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 6, nested: 50, ..Cfg::valid() }).text();
    begin(c, &t);
    c.sample(|| json!({ "text": short(&t) }));
    let mut e = start(&t).unwrap();
    let v = e.valued();
    if v.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    for &i in &v {
        let key = e.x.entries[i].key.clone();
        let old = e.p.get_value(key.clone()).unwrap();
        ensure!(calls::set_value(&mut e.p, &key, old), "setting {:?} to its own value is false", key);
        ensure!(e.p.to_string() == t, "setting {:?} to its own value changes the document to {:?}", key, e.p.to_string());
    }
    let i = v[s.usize(v.len())];
    let key = e.x.entries[i].key.clone();
    let old = e.p.get_value(key.clone()).unwrap();
    let m = rescalar(s, &e.x.entries[i].val.clone().unwrap(), 70);
    calls::set_value(&mut e.p, &key, to_value(&m));
    let once = e.p.to_string();
    calls::set_value(&mut e.p, &key, to_value(&m));
    ensure!(e.p.to_string() == once, "setting {:?} twice gives {:?}, once {:?}", key, e.p.to_string(), once);
    calls::set_value(&mut e.p, &key, old);
    ensure!(e.p.to_string() == t, "setting {:?} to {} and back gives {:?}", key, m.text(""), e.p.to_string());
    e.view()
}

/// Edits of keys that do not contain each other commute.
fn c17_commute(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 6, nested: 50, ..Cfg::valid() }).text();
    begin(c, &t);
    let x = Expect::of(&t);
    let v: Vec<usize> = (0..x.entries.len()).filter(|&i| x.entries[i].at.is_some()).collect();
    if v.len() < 2 {
        return Ok(());
    }
    let (i, j) = (v[s.usize(v.len())], v[s.usize(v.len())]);
    let (a, b) = (x.entries[i].at.clone().unwrap(), x.entries[j].at.clone().unwrap());
    if a.0 == b.0 && (a.1.starts_with(&b.1) || b.1.starts_with(&a.1)) {
        return Ok(());
    }
    let (m, n) = (new_value(s, x.entries[i].val.as_ref().unwrap()), new_value(s, x.entries[j].val.as_ref().unwrap()));
    let (ki, kj) = (&x.entries[i].key, &x.entries[j].key);
    c.case(&format!("{} {} {:?} {:?}", ki, kj, m, n));
    c.sample(|| json!({"text": short(&t), "first": [ki, m.json()], "second": [kj, n.json()]}));
    c.nontrivial = true;
    let (mut p, _) = parse(&t);
    let (mut q, _) = parse(&t);
    calls::set_value(&mut p, &ki[..], to_value(&m));
    calls::set_value(&mut p, &kj[..], to_value(&n));
    calls::set_value(&mut q, &kj[..], to_value(&n));
    calls::set_value(&mut q, &ki[..], to_value(&m));
    ensure!(p.to_string() == q.to_string(), "editing {:?} then {:?} gives {:?}, the other way round {:?}", ki, kj, p.to_string(), q.to_string());
    same_view(&p, &q, "one way", "the other way round")
}

pub fn checks() -> Vec<Check> {
    const P: &[&str] = &[
        "documents with a comma after the last pair of an inline table are left out: the documentation does not say whether they are TOML",
        "the harness builds /repo with a copy of nom 1.2.4 that only adds a per-thread cache of compiled regular expressions",
    ];
    let part = |name, quick, thorough, f: CaseFn| Part { name, quick, thorough, exhaustive: false, f };
    vec![
        Check {
            id: "C13",
            rule: "one scalar of a generated document (valid, with errors, damaged) set to a generated scalar; all scalars of a document set in turn; non-trivial: the new value differs from the old one",
            assumptions: P,
            findings: &[],
            parts: vec![part("scalar", 300_000, 6_000_000, c13_scalar), part("all", 60_000, 1_200_000, c13_all)],
        },
        Check {
            id: "C14",
            rule: "a value of a generated document set to a scalar, to one of the same structure, to one with one element more, less, renamed or moved, or to any other; non-trivial: not a scalar set to a scalar",
            assumptions: P,
            findings: &[Finding { id: "inline-table-braces", probe: brace_finding }],
            parts: vec![part("structure", 250_000, 5_000_000, c14_structure), part("pairs", 150_000, 3_000_000, c14_pairs)],
        },
        Check {
            id: "C15",
            rule: "2 to 9 (long: up to 61) calls of set_value on a generated document, a quarter of them ones that are rejected, the text compared after each and the view now and then; non-trivial: the document has a value",
            assumptions: P,
            findings: &[],
            parts: vec![part("history", 100_000, 2_500_000, c15_history), part("long", 6_000, 150_000, c15_long)],
        },
        Check {
            id: "C16",
            rule: "1 to 5 calls of set_value with an invalid value (alone or within arrays and inline tables), the key of a table or an absent key, on a generated document that may have been edited; non-trivial: a call was made",
            assumptions: P,
            findings: &[],
            parts: vec![part("rejected", 250_000, 5_000_000, c16_rejected)],
        },
        Check {
            id: "C17",
            rule: "2 to 7 edits of a generated document, read again from its display; values set to themselves, to another and back; two edits in both orders; non-trivial: the document has a value",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("reparse", 120_000, 2_500_000, c17_reparse),
                part("laws", 60_000, 1_500_000, c17_laws),
                part("commute", 100_000, 2_000_000, c17_commute),
            ],
        },
    ]
}
