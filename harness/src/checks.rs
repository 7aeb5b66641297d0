//! The checks of the parser: what a document is, and what is wrong with it.
use crate::ast::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::refparse;
use crate::runner::*;
use crate::tape::*;
use serde_json::json;
use tomllib::types::*;
use tomllib::TOMLParser;

pub fn short(s: &str) -> String {
    let n = s.chars().count();
    if n > 600 {
        format!("{}... ({} characters)", s.chars().take(600).collect::<String>(), n)
    } else {
        s.to_string()
    }
}

/// Statements that are no TOML, or not all of it.
const BAD: &[&str] = &[
    "a", "a =", "= 1", "a == 1", "a 1", "a : 1", "\"\" = 1", "'a' = 1", "\"a = 1", "a b = 1", "a.b = 1", "\u{e9} = 1", "a* = 1", "a = b",
    "a = 01", "a = 1.", "a = .5", "a = 1__0", "a = _1", "a = 1_", "a = +-1", "a = --1", "a = 0x10", "a = inf", "a = nan", "a = 1e",
    "a = 1.e5", "a = 1e1.5", "a = 1.5.5", "a = 1_.5", "a = 1._5", "a = 00", "a = 1 2", "a = +", "a = -", "a = 1e+", "a = 1.5e01",
    "a = True", "a = FALSE", "a = tru", "a = truee", "a = \"x", "a = x\"", "a = \"x\ny\"", "a = \"\\x\"", "a = \"\\u12\"",
    "a = \"\\u123g\"", "a = \"\\U1234567\"", "a = \"\\ \"", "a = \"\t\"", "a = \"\u{1}\"", "a = \"x\"y", "a = 'x", "a = 'x\ny'",
    "a = 'x'y'", "a = '\u{0}'", "a = \"\"\"x", "a = \"\"\"x\"\"", "a = \"\"\"\\x\"\"\"", "a = \"\"\"\u{b}\"\"\"", "a = '''x",
    "a = '''x''", "a = '''\u{c}'''", "a = \"\"\"x\"\"\"\"", "a = '''x''''", "a = \"\"\"\r\"\"\"", "a = \"\"\"\\ x\"\"\"",
    "a = 1979-5-27", "a = 1979-05-2", "a = 79-05-27", "a = 1979-05-27 07:32:00", "a = 1979-05-27T07:32", "a = 1979-05-27T7:32:00",
    "a = 1979-05-27T07:32:00.", "a = 1979-05-27T07:32:00z", "a = 1979-05-27t07:32:00", "a = 1979-05-27T07:32:00+7:00",
    "a = 1979-05-27T07:32:00+0700", "a = 1979-05-27T07:32:00Z+00:00", "a = 1979/05/27", "a = 07:32:00", "a = 1979-05-27T07:32:0\u{663}",
    "a = [1, 2", "a = 1]", "a = [1 2]", "a = [,]", "a = [1,,2]", "a = [,1]", "a = [1;2]", "a = [1, 2]]", "a = [[1]", "a = [1, [2]",
    "a = [b]", "a = [1 # c]", "a = {b = 1", "a = {b = 1 c = 2}", "a = {,}", "a = {b}", "a = {b =}", "a = {= 1}", "a = {b = 1}}",
    "a = {b = 1,, c = 2}", "a = {1}", "a = {\n}", "[a", "a]", "[]", "[a..b]",
];
const BAD2: &[&str] = &[
    "[.a]", "[a.]", "[a b]", "[[a]", "[[a] ]", "[ [a]]", "[[a]]]", "[a]]", "[a] b = 1", "[a]b", "[[]]", "[\"\"]", "['a']", "[a\nb]",
    "[a.b.]", "[a,b]", "[a] [b]", "[\"a]", "[[a.]]", "[[.a]]", "[a = 1]", "a = 1 b = 2", "a = 1, b = 2", "a = \"x\" b = 2", "\u{1}",
    "a = 1\u{0}", "# c\u{1}", "# c\r x", "a = 1 # c\u{7}", "\u{a0}", "\u{feff}a = 1", "a\n= 1", "a =\n1", "a = \n[1]", "{a = 1}",
    "\"a\" \"b\" = 1", "[a]\u{c}", "a = [1\u{b}]", "a = [1, # c\r2]", "a\u{301} = 1",
    "\r\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{3000}", "\u{200b}", " \r ", "\u{a0}\n\u{a0}", "# c\n\r\r", "\u{c}\n \t\n",
];

pub fn bad_statement(s: &mut Src) -> String {
    let n = BAD.len() + BAD2.len();
    let i = s.usize(n + 30);
    if i < BAD.len() {
        BAD[i].to_string()
    } else if i < n {
        BAD2[i - BAD.len()].to_string()
    } else {
        // a valid statement, damaged
        let mut cfg = Cfg::valid();
        cfg.weights = [0, 4, 1, 1];
        cfg.depth = 2;
        let mut g = Gen::new(s, cfg);
        let mut keys = vec![];
        let it = g.item(true, &mut keys);
        let t = Doc { items: vec![it] }.text();
        mutate(s, &t)
    }
}

/// A document with a bad statement somewhere in it.
pub fn broken_doc(s: &mut Src, cfg: Cfg) -> String {
    let n = cfg.items;
    let mut d = doc(s, cfg);
    let i = s.usize(d.items.len() + 1).min(n * 3);
    let bad = bad_statement(s);
    let keep = i.min(d.items.len());
    let rest = Doc { items: d.items.split_off(keep) };
    let mut head = d;
    if let Some(l) = head.items.last_mut() {
        if l.nl.is_empty() {
            l.nl = "\n".into();
        }
    }
    let pre = ws(s);
    let nl = ["\n", "", "\r\n"][s.weighted(&[5, 1, 1])];
    format!("{}{}{}{}{}", head.text(), pre, bad, nl, rest.text())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Valid,
    Errors,
    Mutated,
    Soup,
    Broken,
}

pub fn text_of(s: &mut Src, mode: Mode) -> String {
    match mode {
        Mode::Valid => doc(s, Cfg::valid()).text(),
        Mode::Errors => doc(s, Cfg::errors()).text(),
        Mode::Mutated => {
            let cfg = if s.bool() { Cfg::errors() } else { Cfg::valid() };
            let t = doc(s, Cfg { items: 6, ..cfg }).text();
            mutate(s, &t)
        }
        Mode::Soup => soup(s),
        Mode::Broken => {
            let cfg = if s.bool() { Cfg::errors() } else { Cfg::valid() };
            broken_doc(s, Cfg { items: 6, ..cfg })
        }
    }
}

pub fn mode(s: &mut Src, w: [u32; 5]) -> Mode {
    [Mode::Valid, Mode::Errors, Mode::Mutated, Mode::Soup, Mode::Broken][s.weighted(&w)]
}

fn begin(c: &mut Ctx, text: &str) {
    c.case(text);
    c.sample(|| json!({ "text": short(text) }));
}

fn label_doc(c: &mut Ctx, x: &Expect) {
    for it in &x.doc.items {
        match it.kind {
            Kind::Header { array: true, .. } => c.label("array-header"),
            Kind::Header { .. } => c.label("header"),
            Kind::KeyVal { ref val, .. } => match *val {
                Val::Arr { .. } => c.label("array"),
                Val::Inl { .. } => c.label("inline-table"),
                Val::Scalar(_) => c.label("scalar"),
            },
            _ => (),
        }
    }
    for e in &x.model.errors {
        c.label(e.name());
    }
    c.label_if(!x.full(), "partial");
    c.labels.sort();
    c.labels.dedup();
}

// ---------------------------------------------------------------------------------------------------------- C01

fn c01_text(c: &mut Ctx, t: &str) -> Res {
    begin(c, t);
    let (p, o) = parse(t);
    c.label(o.name);
    c.nontrivial = p.to_string().len() > 3;
    check_lossless(&p, &o, t)?;
    // reading changes nothing
    let shown = p.to_string();
    for k in ["a", "b", "a.b", "a[0]", "", "x y"] {
        p.get_value(k);
        p.get_children(k);
    }
    ensure!(p.to_string() == shown, "reading keys changed the displayed document");
    Ok(())
}

fn c01_docs(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [4, 4, 4, 1, 3]);
    let t = text_of(s, m);
    c01_text(c, &t)
}

fn c01_large(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = if s.bool() { Cfg::errors() } else { Cfg::valid() };
    let t = doc(s, Cfg { items: 60, depth: 6, nested: 50, ..cfg }).text();
    c01_text(c, &t)
}

const SHORT: [char; 15] = ['a', '=', '1', '[', ']', '"', '\n', '#', ' ', '.', '{', '}', ',', '\'', '\r'];

pub fn short_text(alphabet: &[char], mut i: u64) -> String {
    // the empty text, then all of length 1, of length 2, ...
    let n = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= n;
        len += 1;
    }
    let mut out = String::new();
    for _ in 0..len {
        out.push(alphabet[(i % n) as usize]);
        i /= n;
    }
    out
}

/// How many texts there are of at most this length.
pub const fn upto(n: u64, len: u32) -> u64 {
    let mut t = 0;
    let mut p = 1;
    let mut i = 0;
    while i <= len {
        t += p;
        p *= n;
        i += 1;
    }
    t
}

fn c01_short(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    c01_text(c, &short_text(&SHORT, i))
}

// ---------------------------------------------------------------------------------------------------------- C02

pub fn odd_key(s: &mut Src, entries: &[Entry]) -> String {
    if let Some(w) = s.word() {
        return w.to_string();
    }
    match s.weighted(&[3, 2, 1]) {
        0 if !entries.is_empty() => {
            let k = entries[s.usize(entries.len())].key.clone();
            if s.bool() {
                k
            } else {
                mutate(s, &k)
            }
        }
        1 => {
            let mut k = String::new();
            while s.more(k.len(), 3, 12) {
                k.push_str(["a", ".", "[", "]", "0", "\"", " ", "\n", "$", "-", "99999999999999999999", "\u{e9}"][s.usize(12)]);
            }
            k
        }
        _ => KEYS[s.usize(KEYS.len())].to_string(),
    }
}

/// Any value at all, valid or not.
pub fn odd_value(s: &mut Src, depth: usize) -> MVal {
    if s.bool() {
        let mut cfg = Cfg::errors();
        cfg.depth = depth;
        return Gen::new(s, cfg).mval(depth, None);
    }
    let junk = |s: &mut Src| -> String {
        let t = soup(s);
        t.chars().take(12).collect()
    };
    match s.usize(if depth > 0 { 6 } else { 4 }) {
        0 => MVal::Int(junk(s)),
        1 => MVal::Float(junk(s)),
        2 => MVal::Str(junk(s), STS[s.usize(4)]),
        3 => {
            let mut d = if s.bool() { date(s) } else { bad_date(s) };
            if s.bool() {
                d.y = junk(s);
            }
            if let Some(ref mut t) = d.tm {
                if s.bool() {
                    t.frac = Some(junk(s));
                }
            }
            MVal::Dt(d)
        }
        4 => {
            let n = s.usize(4);
            MVal::Arr((0..n).map(|_| odd_value(s, depth - 1)).collect())
        }
        _ => {
            let n = s.usize(4);
            MVal::Inl(
                (0..n)
                    .map(|_| {
                        let k = if s.bool() { KEYS[s.usize(6)].to_string() } else { junk(s) };
                        (k, odd_value(s, depth - 1))
                    })
                    .collect(),
            )
        }
    }
}

fn c02_result(t: &str, p: &TOMLParser, o: &Outcome) -> Res {
    ensure!(o.name != "Failure", "the result is Failure, though an empty part of every text is a document");
    if o.name == "FullError" || o.name == "PartialError" {
        ensure!(!o.errors.is_empty(), "{} without errors", o.name);
    }
    ensure!(o.col.unwrap_or(0) == 0, "column {:?}", o.col);
    let mut last = 1 + t.matches('\n').count();
    if let Some(ref l) = o.leftover {
        ensure!(!l.is_empty(), "{} with nothing left over", o.name);
        ensure!(t.ends_with(&l[..]), "the leftover {:?} is not the end of the input", short(l));
        last = 1 + t[..t.len() - l.len()].matches('\n').count();
        ensure!(o.line == Some(last), "{} says line {:?}, parsing stopped on line {}", o.name, o.line, last);
        last = 1 + t.matches('\n').count();
    }
    for e in &o.errors {
        ensure!(e.line >= 1 && e.line <= last, "an error on line {} of {}", e.line, last);
        ensure!(e.col == 0, "an error in column {}", e.col);
        ensure!(!matches!(e.kind, OErr::Other(_)), "an error of an unimplemented kind: {:?}", e);
    }
    if o.leftover.is_none() {
        ensure!(p.to_string() == t, "the result is {}, but the parsed document is {:?}", o.name, short(&p.to_string()));
    }
    Ok(())
}

fn c02_any(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [1, 4, 5, 2, 4]);
    let t = text_of(s, m);
    begin(c, &t);
    let (mut p, o) = parse(&t);
    c.label(o.name);
    c.nontrivial = t.len() > 3;
    c02_result(&t, &p, &o)?;
    let x = Expect::of(&t);
    let entries = x.entries;
    let n = s.usize(6);
    for _ in 0..n {
        let k = odd_key(s, &entries);
        match s.usize(3) {
            0 => {
                p.get_value(k);
            }
            1 => {
                if let Some(ch) = p.get_children(k.clone()) {
                    ch.combine_child_keys(k);
                }
            }
            _ => {
                let v = odd_value(s, 2);
                c.label("set");
                calls::set_value(&mut p, &k, to_value(&v));
                p.get_value(k.clone());
                p.get_children(k);
                p.to_string();
            }
        }
    }
    Ok(())
}

fn c02_deep(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let depth = 5 + s.usize(60);
    let mut t = String::from("a = ");
    let mut close = vec![];
    for _ in 0..depth {
        if s.bool() {
            t.push_str("[");
            close.push("]");
        } else {
            t.push_str("{b = ");
            close.push("}");
        }
    }
    t.push('1');
    while let Some(x) = close.pop() {
        t.push_str(x);
    }
    if s.chance(1, 4) {
        t = mutate(s, &t);
    }
    begin(c, &t);
    c.nontrivial = true;
    let (p, o) = parse(&t);
    c.label(o.name);
    c02_result(&t, &p, &o)?;
    let x = Expect::of(&t);
    ensure!(x.undefined || (o.leftover.is_none() == x.full()), "the result is {}", o.name);
    Ok(())
}

fn c02_short(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    let t = short_text(&SHORT, i);
    begin(c, &t);
    let (p, o) = parse(&t);
    c.nontrivial = t.len() > 2;
    c.label(o.name);
    c02_result(&t, &p, &o)
}

// ---------------------------------------------------------------------------------------------------- C03 and C06

fn c03_docs(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg::valid()).text();
    begin(c, &t);
    let x = Expect::of(&t);
    if !x.full() || !x.model.errors.is_empty() {
        panic!("harness: a valid document is not valid: {:?} {:?}", t, x.model.errors);
    }
    label_doc(c, &x);
    c.nontrivial = x.entries.len() > 3;
    let (_, o) = parse(&t);
    ensure!(o.name == "Full", "a valid document gives {:?}", o);
    Ok(())
}

fn c03_value(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let mut cfg = Cfg::valid();
    cfg.nested = 60;
    let depth = 1 + s.usize(6);
    let mut g = Gen::new(s, cfg);
    let m = g.mval(depth, None);
    let v = g.format(&m);
    let key = g.key();
    let item = Item {
        pre: String::new(),
        kind: Kind::KeyVal { key, ws1: " ".into(), ws2: " ".into(), val: v },
        post: String::new(),
        comment: None,
        nl: String::new(),
    };
    let t = Doc { items: vec![item] }.text();
    begin(c, &t);
    c.nontrivial = m.depth() > 0 || t.len() > 8;
    c.label_if(m.depth() > 1, "nested");
    let (_, o) = parse(&t);
    ensure!(o.name == "Full", "a valid value gives {:?}", o);
    Ok(())
}

const NUM: [char; 8] = ['0', '1', '_', '.', 'e', '-', '+', '5'];

/// Texts of a few characters in the place of a number.
fn number(_: &mut Src, i: u64, c: &mut Ctx, want_valid: bool) -> Res {
    let v = short_text(&NUM, i);
    let t = format!("a = {}\nb = 1\n", v);
    begin(c, &t);
    let int = refparse::int_ok(&v);
    let float = refparse::float_ok(&v);
    c.nontrivial = (int || float) == want_valid;
    let (p, o) = parse(&t);
    if int || float {
        let want = if int { MVal::Int(v.clone()) } else { MVal::Float(v.clone()) };
        if want_valid {
            ensure!(o.name == "Full", "the number {} gives {:?}", v, o);
            let got = p.get_value("a").as_ref().map(to_mval);
            ensure!(got == Some(want.clone()), "the number {} is read as {:?}", v, got);
        }
        c.label(if int { "integer" } else { "float" });
    } else if !want_valid {
        let x = Expect::of(&t);
        if x.full() {
            panic!("harness: {:?} is read in full", t);
        }
        check_result(&o, &x)?;
    }
    Ok(())
}

fn c03_number(s: &mut Src, i: u64, c: &mut Ctx) -> Res {
    number(s, i, c, true)
}

fn c06_number(s: &mut Src, i: u64, c: &mut Ctx) -> Res {
    number(s, i, c, false)
}

/// The characters a sweep visits: all of the first planes' beginnings, every boundary, and a sample of the rest.
pub fn sweep_char(i: u64) -> Option<char> {
    let i = i as u32;
    let n = if i < 0x3100 {
        i
    } else if i < 0x3200 {
        [0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0xfeff, 0xfdd0, 0xfdef]
            [(i % 16) as usize]
    } else {
        (mix(i as u64) % 0x110000) as u32
    };
    char::from_u32(n)
}

const PLACES: usize = 14;

fn place(c: char, i: usize) -> String {
    match i {
        0 => format!("a = \"x{}y\"\nb = 1", c),
        1 => format!("a = \"\"\"x{}y\"\"\"\nb = 1", c),
        2 => format!("a = 'x{}y'\nb = 1", c),
        3 => format!("a = '''x{}y'''\nb = 1", c),
        4 => format!("# x{}y\nb = 1", c),
        5 => format!("\"x{}y\" = 1\nb = 1", c),
        6 => format!("x{}y = 1\nb = 1", c),
        7 => format!("a = [1,{}2]\nb = 1", c),
        8 => format!("a = 1\n{}\nb = 1", c),
        9 => format!("[x{}y]\nb = 1", c),
        10 => format!("[\"x{}y\"]\nb = 1", c),
        11 => format!("a ={}1\nb = 1", c),
        12 => format!("a = \"x\\{}y\"\nb = 1", c),
        _ => format!("a = [1, # x{}y\n2]\nb = 1", c),
    }
}

/// Every character in every place where the grammar says which are allowed.
fn char_sweep(i: u64, c: &mut Ctx, want_valid: bool) -> Res {
    let ch = match sweep_char(i / PLACES as u64) {
        Some(c) => c,
        None => return Ok(()),
    };
    let t = place(ch, (i % PLACES as u64) as usize);
    begin(c, &t);
    let x = Expect::of(&t);
    let valid = x.full() && x.model.errors.is_empty();
    if valid != want_valid || x.undefined {
        return Ok(());
    }
    c.nontrivial = true;
    let (p, o) = parse(&t);
    check_result(&o, &x)?;
    if valid {
        check_values(&p, &x.entries)?;
    }
    check_lossless(&p, &o, &t)
}

fn c03_chars(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    char_sweep(i, c, true)
}
fn c06_chars(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    char_sweep(i, c, false)
}

fn c06_broken(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [0, 0, 3, 1, 6]);
    let t = text_of(s, m);
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        c.label("unspecified");
        return Ok(());
    }
    c.nontrivial = !x.full();
    c.label(x.result_name());
    let (p, o) = parse(&t);
    check_result(&o, &x)?;
    if !x.full() {
        ensure!(o.line == Some(x.fail_line()), "parsing stopped on line {}, reported {:?}", x.fail_line(), o.line);
        // what came before is there
        check_lossless(&p, &o, &t)?;
        check_view(&p, &x.entries)?;
        check_errors(&o, &x, &ALL_ERRORS, false)?;
    }
    Ok(())
}

/// Every bad statement, in a few surroundings.
fn c06_catalogue(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    let n = BAD.len() + BAD2.len();
    let k = (i as usize) % n;
    let bad = if k < BAD.len() { BAD[k] } else { BAD2[k - BAD.len()] };
    let t = match i as usize / n {
        0 => bad.to_string(),
        1 => format!("z = 1\n{}\ny = 2\n", bad),
        2 => format!("[z]\r\nz = [1, 2]\r\n  {}\r\ny = 2\r\n", bad),
        _ => format!("z = 1\nz = 2\n\n\t{}", bad),
    };
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        return Ok(());
    }
    if x.full() {
        panic!("harness: {:?} of the catalogue is TOML", t);
    }
    c.nontrivial = true;
    let (p, o) = parse(&t);
    check_result(&o, &x)?;
    ensure!(o.line == Some(x.fail_line()), "parsing stopped on line {}, reported {:?}", x.fail_line(), o.line);
    check_lossless(&p, &o, &t)?;
    check_view(&p, &x.entries)
}

fn c06_short(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    let t = short_text(&SHORT, i);
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        return Ok(());
    }
    c.nontrivial = !x.full();
    let (p, o) = parse(&t);
    check_result(&o, &x)?;
    check_lossless(&p, &o, &t)
}

// ---------------------------------------------------------------------------------------------------- C04 and C05

fn view_case(s: &mut Src, c: &mut Ctx, w: [u32; 5]) -> Option<(String, Expect)> {
    let m = mode(s, w);
    let t = text_of(s, m);
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        c.label("unspecified");
        return None;
    }
    label_doc(c, &x);
    c.nontrivial = x.entries.len() > 3;
    Some((t, x))
}

fn c04_values(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let (t, x) = match view_case(s, c, [6, 3, 2, 0, 1]) {
        Some(v) => v,
        None => return Ok(()),
    };
    let (p, _) = parse(&t);
    check_values(&p, &x.entries)?;
    for k in absent_probes(&x.entries) {
        let v = p.get_value(k.clone());
        ensure!(v.is_none(), "get_value({:?}) is {}, but the document has no such key", k, v.unwrap());
    }
    // the key may be given as any string type
    for e in x.entries.iter().take(4) {
        ensure!(p.get_value(&e.key[..]) == p.get_value(e.key.clone()), "get_value({:?}) by &str and String differ", e.key);
    }
    // asking again gives the same
    check_values(&p, &x.entries)
}

fn c04_large(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 60, depth: 5, nested: 50, same_header: 5, ..Cfg::valid() }).text();
    begin(c, &t);
    let x = Expect::of(&t);
    label_doc(c, &x);
    c.nontrivial = true;
    let (p, _) = parse(&t);
    check_values(&p, &x.entries)
}

fn c05_children(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let (t, x) = match view_case(s, c, [6, 3, 2, 0, 1]) {
        Some(v) => v,
        None => return Ok(()),
    };
    let (p, _) = parse(&t);
    check_children(&p, &x.entries)?;
    check_closure(&p, &x.entries)?;
    for k in absent_probes(&x.entries) {
        ensure!(p.get_children(k.clone()).is_none(), "get_children({:?}), but the document has no such key", k);
    }
    Ok(())
}

fn c05_large(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 60, weights: [1, 3, 5, 5], same_header: 25, ..Cfg::valid() }).text();
    begin(c, &t);
    let x = Expect::of(&t);
    label_doc(c, &x);
    c.nontrivial = true;
    let (p, _) = parse(&t);
    check_children(&p, &x.entries)?;
    check_closure(&p, &x.entries)
}

fn c05_combine(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let base = if s.chance(1, 4) { String::new() } else { odd_key(s, &[]) };
    let child = odd_key(s, &[]);
    let n = s.usize(12);
    c.case(&format!("{:?}{:?}{}", base, child, n));
    c.sample(|| json!({"base": base, "child": child, "count": n}));
    c.nontrivial = !base.is_empty();
    let want = if base.is_empty() { child.clone() } else { format!("{}.{}", base, child) };
    ensure!(Children::combine_keys(base.clone(), child.clone()) == want, "combine_keys({:?}, {:?})", base, child);
    ensure!(Children::combine_keys_index(base.clone(), n) == format!("{}[{}]", base, n), "combine_keys_index({:?}, {})", base, n);
    let ch = Children::Count(std::cell::Cell::new(n));
    let want: Vec<String> = (0..n).map(|i| format!("{}[{}]", base, i)).collect();
    ensure!(ch.combine_child_keys(base.clone()) == want, "combine_child_keys({:?}) of {} children", base, n);
    let keys: Vec<String> = (0..n).map(|_| odd_key(s, &[])).collect();
    let ch = Children::Keys(std::cell::RefCell::new(keys.clone()));
    let want: Vec<String> = keys.iter().map(|k| join(&base, k)).collect();
    ensure!(ch.combine_child_keys(base.clone()) == want, "combine_child_keys({:?}) of {:?}", base, keys);
    Ok(())
}

// ------------------------------------------------------------------------------------------------------ C07 to C11

fn errors_case(s: &mut Src, c: &mut Ctx, cfg: Cfg, kind: &'static str, lines: bool) -> Res {
    let t = if s.chance(1, 8) {
        broken_doc(s, cfg)
    } else {
        let d = doc(s, cfg);
        if s.chance(1, 10) {
            let t = d.text();
            mutate(s, &t)
        } else {
            d.text()
        }
    };
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        return Ok(());
    }
    label_doc(c, &x);
    c.label_if(x.model.parent_rule > 0, "parent-holds-values");
    c.nontrivial = x.count(kind) > 0;
    let (p, o) = parse(&t);
    check_errors(&o, &x, &[kind], lines)?;
    ensure!(
        o.name == "FullError" || o.name == "PartialError" || x.count(kind) == 0,
        "the result is {} though the document has errors",
        o.name
    );
    // the key of the error leads to what the document has there
    check_view(&p, &x.entries)
}

fn c07_dups(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = Cfg { dup: 30, inner_dup: 20, same_header: 30, mixed: 2, bad_date: 2, items: 8, ..Cfg::errors() };
    errors_case(s, c, cfg, "DuplicateKey", true)
}

fn c08_tables(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = Cfg { weights: [1, 4, 5, 4], same_header: 45, dup: 5, inner_dup: 1, mixed: 2, bad_date: 2, nested: 20, ..Cfg::errors() };
    errors_case(s, c, cfg, "InvalidTable", true)
}

fn c09_mixed(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = Cfg { mixed: 35, nested: 70, depth: 4, dup: 5, items: 5, ..Cfg::errors() };
    errors_case(s, c, cfg, "MixedArray", true)
}

fn c10_dates(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = Cfg { bad_date: 60, nested: 30, items: 8, ..Cfg::errors() };
    errors_case(s, c, cfg, "InvalidDateTime", true)
}

/// Every combination of month and day, in years of all kinds, and fields of the time around their bounds.
fn c10_calendar(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    const YEARS: [&str; 16] = [
        "0000", "0001", "0004", "0100", "0400", "1582", "1600", "1900", "1999", "2000", "2001", "2004", "2015", "2016", "2100", "9999",
    ];
    let y = YEARS[(i % 16) as usize];
    let mo = (i / 16) % 14;
    let d = (i / 16 / 14) % 33;
    let d = Dt { y: y.into(), mo: two(mo as i64), d: two(d as i64), tm: None };
    date_case(c, &d)
}

fn c10_clock(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    // one field of the time at a time over all of its two-digit values
    let f = i / 100;
    let v = two((i % 100) as i64);
    let mut t = Tm { h: "12".into(), m: "30".into(), s: "30".into(), frac: None, off: Off::None };
    match f {
        0 => t.h = v,
        1 => t.m = v,
        2 => t.s = v,
        3 => t.off = Off::Amount('+', v, "30".into()),
        4 => t.off = Off::Amount('-', "12".into(), v),
        5 => t.off = Off::Amount('-', v, "30".into()),
        6 => t.off = Off::Amount('+', "12".into(), v),
        7 => {
            t.h = v;
            t.frac = Some("123".into());
            t.off = Off::Zulu;
        }
        8 => {
            t.m = v;
            t.frac = Some("0".into());
            t.off = Off::Amount('-', "00".into(), "00".into());
        }
        _ => {
            t.s = v;
            t.frac = Some("000000000000001".into());
        }
    }
    date_case(c, &Dt { y: "2016".into(), mo: "02".into(), d: "29".into(), tm: Some(t) })
}

fn date_case(c: &mut Ctx, d: &Dt) -> Res {
    for (t, key) in [
        (format!("a = {}\n", d.text()), "a"),
        (format!("[[t]]\n\n[[t]]\r\nx = [1, {{b = [[{}]]}}]", d.text()), "t[1].x[1].b[0][0]"),
    ] {
        begin(c, &t);
        let x = Expect::of(&t);
        c.nontrivial = true;
        c.label(if d.exists() { "exists" } else { "does not exist" });
        let (p, o) = parse(&t);
        check_errors(&o, &x, &["InvalidDateTime"], true)?;
        let got = p.get_value(key).as_ref().map(to_mval);
        ensure!(got == Some(MVal::Dt(d.clone())), "get_value({:?}) is {:?}, the document has {}", key, got, d.text());
    }
    Ok(())
}

fn c11_lines(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = Cfg { mixed: 20, bad_date: 20, inner_dup: 10, nested: 45, ..Cfg::errors() };
    let t = if s.chance(1, 3) { broken_doc(s, cfg) } else { doc(s, cfg).text() };
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        return Ok(());
    }
    label_doc(c, &x);
    c.nontrivial = t.contains('\n') && (!x.model.errors.is_empty() || !x.full());
    let (_, o) = parse(&t);
    check_errors(&o, &x, &ALL_ERRORS, true)?;
    if !x.full() {
        ensure!(o.line == Some(x.fail_line()), "parsing stopped on line {}, reported {:?}", x.fail_line(), o.line);
    }
    Ok(())
}

/// Lines put above a document move all of its errors down by as many.
fn c11_shift(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [0, 4, 0, 0, 2]);
    let t = text_of(s, m);
    let nl = ["\n", "\r\n"][s.usize(2)];
    let piece = [
        format!("{}", nl),
        format!("# comment{}", nl),
        format!("zz1 = [1,{}{}2 # c{}]{}", nl, nl, nl, nl),
        format!("zz2 = \"\"\"{}x{}\"\"\"{}", nl, nl, nl),
        format!("zz3 = '''{}x{}{}'''{}", nl, nl, nl, nl),
        format!("zz4 = {{a = 1, # c{} b = [{} 1]{}}}{}", nl, nl, nl, nl),
        format!("zz5 = \"\"\"x \\{}  y\"\"\"{}", nl, nl),
        format!("zz6 = [1 # c{}, 2]{}", nl, nl),
    ];
    let p = s.usize(piece.len());
    let piece = &piece[p];
    let both = format!("{}{}", piece, t);
    begin(c, &both);
    let n = piece.matches('\n').count();
    let (_, a) = parse(&t);
    let (_, b) = parse(&both);
    c.nontrivial = !a.errors.is_empty() || a.leftover.is_some();
    ensure!(a.name == b.name, "{} became {} below other lines", a.name, b.name);
    ensure!(a.line.map(|l| l + n) == b.line, "line {:?} became {:?} below {} lines", a.line, b.line, n);
    ensure!(a.errors.len() == b.errors.len(), "the errors {:?} became {:?}", a.errors, b.errors);
    for (x, y) in a.errors.iter().zip(&b.errors) {
        ensure!(x.line + n == y.line && x.key == y.key, "the error {:?} became {:?} below {} lines", x, y, n);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------------------ C12

fn c12_view(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [0, 5, 1, 0, 2]);
    let t = text_of(s, m);
    begin(c, &t);
    let x = Expect::of(&t);
    if x.undefined {
        return Ok(());
    }
    label_doc(c, &x);
    c.nontrivial = !x.model.errors.is_empty();
    let (p, o) = parse(&t);
    check_result(&o, &x)?;
    check_errors(&o, &x, &ALL_ERRORS, false)?;
    check_view(&p, &x.entries)?;
    check_lossless(&p, &o, &t)
}

/// Taking the statements with errors out of a document does not change what the others define.
fn c12_remove(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let d = doc(s, Cfg { inner_dup: 0, dup: 25, ..Cfg::errors() });
    let t = d.text();
    begin(c, &t);
    let m = Model::build(&d);
    if m.invalid_items.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    let mut clean = d.clone();
    for &i in &m.invalid_items {
        clean.items[i].kind = Kind::Blank;
        clean.items[i].post = String::new();
    }
    let t2 = clean.text();
    let (p, _) = parse(&t);
    let (q, o) = parse(&t2);
    ensure!(
        !o.errors.iter().any(|e| matches!(e.kind, OErr::Dup(_) | OErr::Table(_))),
        "without the statements that are in error there is {:?}",
        o.errors
    );
    same_view(&p, &q, "with the statements in error", "without them")
}

/// Two parsers show the same keys, values and children.
pub fn same_view(p: &TOMLParser, q: &TOMLParser, pn: &str, qn: &str) -> Res {
    let mut todo = vec![String::new()];
    let mut n = 0;
    while let Some(k) = todo.pop() {
        n += 1;
        ensure!(n < 1_000_000, "the children do not end");
        let (a, b) = (p.get_value(k.clone()), q.get_value(k.clone()));
        ensure!(a == b && a.as_ref().map(to_mval) == b.as_ref().map(to_mval), "{:?} is {:?} {} and {:?} {}", k, a, pn, b, qn);
        let (a, b) = (p.get_children(k.clone()), q.get_children(k.clone()));
        ensure!(a.map(kids) == b.map(kids), "the children of {:?} are {:?} {} and {:?} {}", k, a, pn, b, qn);
        if let Some(c) = a {
            todo.extend(c.combine_child_keys(k));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------------------ C22

/// The same items in other clothes: other whitespace, comments, line endings and blank lines.
fn reformat(s: &mut Src, d: &Doc) -> Doc {
    let cfg = Cfg::valid();
    let mut g = Gen::new(s, cfg);
    let nl = g.nl;
    let mut out = vec![];
    let n = d.items.len();
    for (i, it) in d.items.iter().enumerate() {
        if let Kind::Blank = it.kind {
            if g.s.chance(1, 2) && i + 1 < n {
                continue;
            }
        }
        if g.s.chance(1, 6) {
            let pre = ws(g.s);
            let comment = if g.s.bool() { Some(comment(g.s)) } else { None };
            out.push(Item { pre, kind: Kind::Blank, post: String::new(), comment, nl: newline(g.s, nl) });
        }
        let pre = ws(g.s);
        let kind = match it.kind {
            Kind::KeyVal { ref key, ref val, .. } => {
                let (ws1, ws2) = (ws(g.s), ws(g.s));
                Kind::KeyVal { key: key.clone(), ws1, ws2, val: g.format(&val.sem()) }
            }
            Kind::Header { array, ref keys } => Kind::Header {
                array,
                keys: keys.iter().map(|k| HKey { pre: ws(g.s), key: k.key.clone(), post: ws(g.s) }).collect(),
            },
            ref k => k.clone(),
        };
        let post = if let Kind::Blank = kind { String::new() } else { ws(g.s) };
        let comment = if g.s.chance(1, 4) { Some(comment(g.s)) } else { None };
        out.push(Item { pre, kind, post, comment, nl: newline(g.s, nl) });
    }
    Doc { items: out }
}

fn c22_format(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let cfg = if s.bool() { Cfg::errors() } else { Cfg::valid() };
    let d = doc(s, cfg);
    let e = reformat(s, &d);
    let (t, u) = (d.text(), e.text());
    c.case(&t);
    c.case(&u);
    c.sample(|| json!({"text": short(&t), "reformatted": short(&u)}));
    c.nontrivial = t != u && d.items.len() > 1;
    let (p, a) = parse(&t);
    let (q, b) = parse(&u);
    c.label(a.name);
    ensure!(a.name == b.name, "{} became {} by reformatting", a.name, b.name);
    same_view(&p, &q, "before reformatting", "after it")?;
    let strip = |o: &Outcome| {
        let mut v: Vec<String> = o
            .errors
            .iter()
            .map(|e| match e.kind {
                OErr::Table(ref m) => {
                    let m: std::collections::BTreeMap<_, _> = m.iter().map(|(k, v)| (k.clone(), v.json().to_string())).collect();
                    format!("{} table {:?}", e.key, m)
                }
                ref k => format!("{} {:?}", e.key, k),
            })
            .collect();
        v.sort();
        v
    };
    ensure!(strip(&a) == strip(&b), "the errors {:?} became {:?} by reformatting", a.errors, b.errors);
    Ok(())
}

/// All line endings of one kind replaced by the other.
fn c22_crlf(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [4, 4, 0, 0, 1]);
    let t = text_of(s, m).replace("\r\n", "\n");
    if t.contains('\r') {
        return Ok(());
    }
    let u = t.replace("\n", "\r\n");
    begin(c, &u);
    c.nontrivial = t != u;
    let (p, a) = parse(&t);
    let (q, b) = parse(&u);
    ensure!(a.name == b.name && a.line == b.line, "{} at line {:?} became {} at {:?} with CRLF", a.name, a.line, b.name, b.line);
    let l = |o: &Outcome| o.errors.iter().map(|e| (e.name(), e.key.clone(), e.line)).collect::<Vec<_>>();
    ensure!(l(&a) == l(&b), "the errors {:?} became {:?} with CRLF", l(&a), l(&b));
    // values are the same but for the line endings in multi-line strings
    let mut todo = vec![String::new()];
    while let Some(k) = todo.pop() {
        let f = |v: Option<Value>| v.map(|v| v.to_string().replace("\r\n", "\n"));
        let (x, y) = (f(p.get_value(k.clone())), f(q.get_value(k.clone())));
        ensure!(x == y, "{:?} is {:?} with LF and {:?} with CRLF", k, x, y);
        let (x, y) = (p.get_children(k.clone()).map(kids), q.get_children(k.clone()).map(kids));
        ensure!(x == y, "the children of {:?} are {:?} with LF and {:?} with CRLF", k, x, y);
        if let Some(ch) = p.get_children(k.clone()) {
            todo.extend(ch.combine_child_keys(k));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------------------ C23

fn errs_sorted(o: &Outcome) -> Vec<String> {
    let mut v: Vec<String> = o
        .errors
        .iter()
        .map(|e| match e.kind {
            OErr::Table(ref m) => {
                let m: std::collections::BTreeMap<_, _> = m.iter().map(|(k, v)| (k.clone(), v.json().to_string())).collect();
                format!("{} {} {:?}", e.line, e.key, m)
            }
            ref k => format!("{} {} {:?}", e.line, e.key, k),
        })
        .collect();
    v.sort();
    v
}

fn same_outcome(a: &Outcome, b: &Outcome, how: &str) -> Res {
    ensure!(
        a.name == b.name && a.leftover == b.leftover && a.line == b.line && errs_sorted(a) == errs_sorted(b),
        "{}: {:?} and {:?}",
        how,
        a,
        b
    );
    Ok(())
}

fn c23_again(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [3, 4, 2, 1, 3]);
    let t = text_of(s, m);
    begin(c, &t);
    c.nontrivial = t.len() > 3;
    let (p, a) = parse(&t);
    let u = t.clone();
    let (q, b) = parse(&u);
    same_outcome(&a, &b, "parsed twice")?;
    ensure!(p.to_string() == q.to_string(), "parsed twice, the document is displayed differently");
    same_view(&p, &q, "once", "the other time")
}

fn c23_reuse(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let n = s.sized(REPEAT, 24).map_or_else(|| 2 + s.usize(3), |n| n + 1);
    let texts: Vec<String> = (0..n)
        .map(|_| {
            let m = mode(s, [3, 4, 2, 1, 3]);
            text_of(s, m)
        })
        .collect();
    for t in &texts {
        c.case(t);
    }
    c.sample(|| json!({"texts": texts.iter().map(|t| short(t)).collect::<Vec<_>>()}));
    c.nontrivial = true;
    let mut p = TOMLParser::new();
    let mut results = vec![];
    for t in &texts {
        let (q, r) = p.parse(t);
        p = q;
        let o = outcome(&r);
        let (f, fo) = parse(t);
        same_outcome(&o, &fo, "in a parser that has been used and in a new one")?;
        ensure!(p.to_string() == f.to_string(), "displayed {:?} by a parser that has been used", short(&p.to_string()));
        same_view(&p, &f, "in a parser that has been used", "in a new one")?;
        // edits of one document stay out of the next
        if s.bool() {
            let x = Expect::of(t);
            let v: Vec<&Entry> = x.entries.iter().filter(|e| e.val.is_some()).collect();
            if !v.is_empty() {
                let k = v[s.usize(v.len())].key.clone();
                let nv = any_scalar(s, 0);
                c.label("edited in between");
                calls::set_value(&mut p, &k, to_value(&nv));
            }
        }
        results.push((o, r));
    }
    // and the results already returned stay what they were
    for (o, r) in &results {
        same_outcome(o, &outcome(r), "a result returned earlier changed")?;
    }
    Ok(())
}

/// Two parsers of one text, used by turns.
fn c23_apart(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc(s, Cfg { items: 6, ..Cfg::valid() }).text();
    begin(c, &t);
    let (mut p, _) = parse(&t);
    let (q, _) = parse(&t);
    let x = Expect::of(&t);
    let v: Vec<&Entry> = x.entries.iter().filter(|e| e.val.is_some()).collect();
    if v.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    let before: Vec<_> = v.iter().map(|e| p.get_value(e.key.clone())).collect();
    let n = s.sized(REPEAT, 60).unwrap_or_else(|| 1 + s.usize(4));
    for _ in 0..n {
        let k = v[s.usize(v.len())].key.clone();
        let mut g = Gen::new(s, Cfg::valid());
        let m = g.mval(2, None);
        let val = to_value(&m);
        calls::set_value(&mut p, &k, val.clone());
        ensure!(to_mval(&val) == m, "the value that was set changed");
    }
    // the other parser, and the values taken out before, are as they were
    check_view(&q, &x.entries)?;
    ensure!(q.to_string() == t, "another parser of the same text now displays {:?}", q.to_string());
    for (e, b) in v.iter().zip(&before) {
        ensure!(b.as_ref().map(to_mval) == e.val, "a value taken from {:?} before an edit is now {:?}", e.key, b);
    }
    Ok(())
}

thread_local! {
    static LOGGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LOGGED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Writes out all that is logged by the threads that ask for it, and forgets it.
struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.get()
    }
    fn log(&self, r: &log::Record) {
        if LOGGING.get() {
            LOGGED.set(LOGGED.get() + r.args().to_string().len() as u64);
        }
    }
    fn flush(&self) {}
}

fn logged<T>(f: impl FnOnce() -> T) -> T {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Logger);
        log::set_max_level(log::LevelFilter::Trace);
    });
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LOGGING.set(false);
        }
    }
    LOGGING.set(true);
    let _off = Off;
    f()
}

/// With the messages for debugging switched on.
fn c23_logged(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = mode(s, [3, 6, 2, 1, 2]);
    let t = text_of(s, m);
    begin(c, &t);
    let (mut p, a) = parse(&t);
    let before = LOGGED.get();
    let (mut q, b) = logged(|| parse(&t));
    c.nontrivial = LOGGED.get() > before;
    same_outcome(&a, &b, "parsed with and without logging")?;
    let x = Expect::of(&t);
    for _ in 0..s.usize(4) {
        let k = odd_key(s, &x.entries);
        let v = odd_value(s, 2);
        let did = calls::set_value(&mut p, &k, to_value(&v));
        let same = logged(|| {
            let did = calls::set_value(&mut q, &k, to_value(&v));
            calls::get_value(&q, &k);
            calls::get_children(&q, &k);
            did
        });
        ensure!(did == same, "set_value({:?}, ..) is {} without and {} with logging", k, did, same);
        c.label("set");
    }
    ensure!(p.to_string() == logged(|| q.to_string()), "displayed differently with logging");
    same_view(&p, &q, "without logging", "with logging")
}

pub fn quoted_finding() -> Option<String> {
    let (_, o) = parse("a = 1\n\"a\" = 2\n");
    if o.name == "Full" {
        Some("the document \"a = 1\\n\\\"a\\\" = 2\" parses as Full: a bare key and the same key in quotes are taken for two keys".into())
    } else {
        None
    }
}

pub fn checks() -> Vec<Check> {
    const P: &[&str] = &[
        "nesting of arrays and inline tables is bounded (65 levels); deeper input can exhaust the stack",
        "the harness builds /repo with a copy of nom 1.2.4 that only adds a per-thread cache of compiled regular expressions",
    ];
    let part = |name, quick: u64, thorough: u64, f: CaseFn| Part { name, quick: quick * 18, thorough: thorough * 10, exhaustive: false, f };
    let all = |name, quick, thorough, f: CaseFn| Part { name, quick, thorough, exhaustive: true, f };
    vec![
        Check {
            id: "C01",
            rule: "texts: generated documents (valid, with errors), damaged documents, token soup, documents with a statement that is no TOML, and every text of up to 5 (thorough: 6) characters over a 15-character alphabet; non-trivial: more than 3 bytes were parsed",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("docs", 60_000, 2_000_000, c01_docs),
                part("large", 400, 20_000, c01_large),
                all("short", upto(15, 5), upto(15, 6), c01_short),
            ],
        },
        Check {
            id: "C02",
            rule: "texts as for C01 followed by up to 5 calls with arbitrary keys and values; values nested 5 to 65 deep; all short texts; non-trivial: more than 2 or 3 bytes of text",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("any", 60_000, 2_000_000, c02_any),
                part("deep", 600, 20_000, c02_deep),
                all("short", upto(15, 5), upto(15, 6), c02_short),
            ],
        },
        Check {
            id: "C03",
            rule: "documents generated from the grammar that the reference model finds no error in; single values nested up to 7 deep; every text of up to 6 (thorough: 8) characters of a number; every character in 14 places; non-trivial: more than 3 keys, or a text the reference grammar accepts",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("docs", 30_000, 1_000_000, c03_docs),
                part("values", 40_000, 1_000_000, c03_value),
                all("numbers", upto(8, 6), upto(8, 8), c03_number),
                all("chars", 14 * 0x3800, 14 * 0x40000, c03_chars),
            ],
        },
        Check {
            id: "C04",
            rule: "every key of the reference model and up to 300 keys close to them, in generated documents (valid, with errors, damaged); non-trivial: more than 3 keys",
            assumptions: P,
            findings: &[],
            parts: vec![part("values", 30_000, 1_000_000, c04_values), part("large", 300, 10_000, c04_large)],
        },
        Check {
            id: "C05",
            rule: "the children of every key of the reference model, what following them from the root reaches, and up to 300 absent keys; key combination with arbitrary strings; non-trivial: more than 3 keys, or a base key",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("children", 30_000, 1_000_000, c05_children),
                part("large", 300, 10_000, c05_large),
                part("combine", 20_000, 400_000, c05_combine),
            ],
        },
        Check {
            id: "C06",
            rule: "documents with a bad statement from a catalogue or a damaged valid one, damaged documents, token soup; every catalogue entry in 4 surroundings; every short text; every short text in the place of a number; every character in 14 places; non-trivial: the reference grammar does not accept all of the text",
            assumptions: P,
            findings: &[],
            parts: vec![
                all("catalogue", bad_count() * 4, bad_count() * 4, c06_catalogue),
                part("broken", 40_000, 1_500_000, c06_broken),
                all("short", upto(15, 5), upto(15, 6), c06_short),
                all("numbers", upto(8, 6), upto(8, 8), c06_number),
                all("chars", 14 * 0x3800, 14 * 0x40000, c06_chars),
            ],
        },
        Check {
            id: "C07",
            rule: "generated documents whose statements and inline tables often repeat keys; non-trivial: the model finds a duplicate key",
            assumptions: P,
            findings: &[Finding { id: "quoted-key-twin", probe: quoted_finding }],
            parts: vec![part("dups", 30_000, 1_000_000, c07_dups)],
        },
        Check {
            id: "C08",
            rule: "generated documents with many headers over few keys, repeated and extended; non-trivial: the model finds an invalid table",
            assumptions: P,
            findings: &[],
            parts: vec![part("tables", 30_000, 1_000_000, c08_tables)],
        },
        Check {
            id: "C09",
            rule: "generated documents with nested arrays, of which a third have one value of another type; non-trivial: the model finds a mixed array",
            assumptions: P,
            findings: &[],
            parts: vec![part("mixed", 30_000, 1_000_000, c09_mixed)],
        },
        Check {
            id: "C10",
            rule: "generated documents with impossible dates and times; every month 0-13 and day 0-32 in 16 years; every two-digit value of every field of the time and the offset; non-trivial: the model finds an impossible date-time, or the case is one of the sweep",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("docs", 20_000, 800_000, c10_dates),
                all("calendar", 16 * 14 * 33, 16 * 14 * 33, c10_calendar),
                all("clock", 1000, 1000, c10_clock),
            ],
        },
        Check {
            id: "C11",
            rule: "generated documents with errors, multi-line values, comments and both line endings, some cut short by a bad statement; the same below other lines; non-trivial: more than one line and an error or a leftover",
            assumptions: P,
            findings: &[],
            parts: vec![part("lines", 30_000, 1_000_000, c11_lines), part("shift", 15_000, 500_000, c11_shift)],
        },
        Check {
            id: "C12",
            rule: "generated documents with errors of all kinds; the same without the statements in error; non-trivial: the model finds an error",
            assumptions: P,
            findings: &[],
            parts: vec![part("view", 25_000, 800_000, c12_view), part("remove", 15_000, 500_000, c12_remove)],
        },
        Check {
            id: "C22",
            rule: "generated documents and the same statements with other whitespace, comments, blank lines and line endings; non-trivial: the texts differ",
            assumptions: P,
            findings: &[],
            parts: vec![part("format", 25_000, 800_000, c22_format), part("crlf", 15_000, 500_000, c22_crlf)],
        },
        Check {
            id: "C23",
            rule: "texts of all kinds parsed twice; 2 to 4 texts parsed one after another by one parser, with edits in between; two parsers of one text, one of them edited; a text parsed and edited with and without the messages for debugging; non-trivial: more than 3 bytes, or an edit was made, or something was logged",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("again", 15_000, 400_000, c23_again),
                part("reuse", 12_000, 400_000, c23_reuse),
                part("apart", 10_000, 300_000, c23_apart),
                part("logged", 5_000, 150_000, c23_logged),
            ],
        },
    ]
}

const fn bad_count() -> u64 {
    (BAD.len() + BAD2.len()) as u64
}
