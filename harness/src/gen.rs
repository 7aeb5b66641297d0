//! Generators: values, documents, damaged texts.
use crate::ast::*;
use crate::model::*;
use crate::refparse;
use crate::tape::*;

/// No two of these name the same key.
pub const KEYS: [&str; 44] = [
    "a", "b", "c", "ab", "a-b", "a_b", "A", "key", "keys", "0", "1", "00", "12", "-", "_", "true", "false", "inf", "nan",
    "1979-05-27", "e1", "-1", "server", "ports", "name", "\"a b\"", "\"a.b\"", "\"[x]\"", "\"x[0]\"", "\"\\\"q\\\"\"", "\"\u{e9}\"",
    "\"\u{65e5}\u{672c}\"", "\"\u{1F600}\"", "\"#\"", "\"=\"", "\"'\"", "\" \"", "\"a]\"", "\"\\t\"", "\"\\u0042x\"", "\"\\U0001F601\"",
    "\"\\\\\"", "\".\"", "\"zz y\"",
];

pub fn ws(s: &mut Src) -> String {
    let w = s.weighted(&[5, 4, 1, 1, 1, 1]);
    match w {
        0 => "".into(),
        1 => " ".into(),
        2 => "\t".into(),
        3 => "  ".into(),
        4 => " \t ".into(),
        _ => {
            let mut n = s.usize(6);
            if let Some(k) = s.sized(BLANK, 5000) {
                n = k;
            } else if s.stretch == BLANK && s.chance(1, 3) {
                n = 20 + s.usize(300);
            }
            (0..n).map(|_| if s.bool() { '\t' } else { ' ' }).collect()
        }
    }
}

/// How long a text gets: usually a few pieces, at times many, or as many as a number in the sources.
struct Len {
    avg: u32,
    max: usize,
    exact: Option<usize>,
    /// All pieces are one byte.
    plain: bool,
}

fn len(s: &mut Src, avg: u32, max: usize) -> Len {
    let mut l = Len { avg, max, exact: None, plain: false };
    if s.stretch == TEXT && s.chance(1, 4) {
        l.exact = s.sized(TEXT, 20000);
        if l.exact.is_some() {
            l.plain = s.bool();
        } else {
            let k = [4, 20, 100][s.usize(3)];
            l.avg *= k;
            l.max *= k as usize;
        }
    }
    l
}

impl Len {
    fn more(&self, s: &mut Src, n: usize) -> bool {
        match self.exact {
            Some(k) => n < k,
            None => s.more(n, self.avg, self.max),
        }
    }
}

pub fn newline(s: &mut Src, nl: usize) -> String {
    match nl {
        0 => "\n".into(),
        1 => "\r\n".into(),
        _ => (if s.bool() { "\r\n" } else { "\n" }).into(),
    }
}

const COMMENT_CHARS: [&str; 26] = [
    "a", "x", " ", "\t", "#", "[", "]", "=", "\"", "'", ",", "{", "}", ".", "\\", "1", "\u{7f}", "\u{80}", "\u{e9}", "\u{2028}",
    "\u{ffff}", "\u{1F600}", "\u{10FFFF}", "\"\"\"", "'''", "\\u",
];

pub fn comment(s: &mut Src) -> String {
    let mut out = String::new();
    let l = len(s, 4, 40);
    let mut n = 0;
    while l.more(s, n) {
        n += 1;
        if l.plain {
            out.push_str(COMMENT_CHARS[s.usize(16)]);
            continue;
        }
        match s.word() {
            Some(w) if !w.contains(|c: char| c < ' ' && c != '\t') => out.push_str(w),
            _ => out.push_str(s.pick(&COMMENT_CHARS)),
        }
    }
    out
}

/// Whitespace, newlines and comments, as between the values of an array.
pub fn trivia(s: &mut Src, nl: usize) -> String {
    if s.chance(3, 5) {
        let mut out = ws(s);
        if s.chance(1, 4) {
            let mut n = 0;
            loop {
                if s.chance(1, 3) {
                    out.push('#');
                    out.push_str(&comment(s));
                }
                out.push_str(&newline(s, nl));
                out.push_str(&ws(s));
                n += 1;
                let go = match s.sized(BLANK, 300) {
                    Some(k) => n < k,
                    None => {
                        let k = if s.stretch == BLANK { 8 } else { 1 };
                        s.more(n, k, 4 * k as usize)
                    }
                };
                if !go {
                    break;
                }
            }
        }
        out
    } else {
        String::new()
    }
}

pub fn digits(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

/// Digits with single underscores between some of them.
fn digit_run(s: &mut Src, first_zero: bool) -> String {
    let mut out = if first_zero { digits(s, 1) } else { ((b'1' + s.below(9) as u8) as char).to_string() };
    let mut n = 1;
    if let Some(k) = s.number() {
        if first_zero || k > 0 {
            return k.to_string();
        }
    }
    let l = len(s, 2, 24);
    while l.more(s, n) {
        if !l.plain && s.chance(1, 5) {
            out.push('_');
        }
        out.push_str(&digits(s, 1));
        n += 1;
    }
    out
}

pub fn int_text(s: &mut Src) -> String {
    let sign = ["", "-", "+"][s.weighted(&[4, 1, 1])];
    let body = if s.chance(1, 6) { "0".to_string() } else { digit_run(s, false) };
    format!("{}{}", sign, body)
}

pub fn float_text(s: &mut Src) -> String {
    let mut out = int_text(s);
    let form = s.weighted(&[3, 2, 2]);
    if form != 1 {
        out.push('.');
        out.push_str(&digit_run(s, true));
    }
    if form != 0 {
        out.push_str(["e", "E"][s.usize(2)]);
        out.push_str(&int_text(s));
    }
    out
}

pub fn two(n: i64) -> String {
    format!("{:02}", n)
}

fn month_days(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) {
                29
            } else {
                28
            }
        }
        _ => 31,
    }
}

pub fn date(s: &mut Src) -> Dt {
    let y = match (s.number(), s.weighted(&[4, 1, 1])) {
        (Some(y), _) if y > 0 && y < 10000 => y as i64,
        (_, 0) => s.range(1970, 2040),
        (_, 1) => [1, 4, 100, 400, 1600, 1700, 1900, 2000, 2100, 9999, 2016, 999][s.usize(12)],
        _ => s.range(1, 9999),
    };
    let named = |s: &mut Src, lo: i64, hi: i64| s.number().map(|n| n as i64).filter(|&n| n >= lo && n <= hi);
    let mo = named(s, 1, 12).unwrap_or_else(|| s.range(1, 12));
    let last = month_days(y, mo);
    let d = named(s, 1, last).unwrap_or_else(|| if s.chance(1, 4) { last } else { s.range(1, last) });
    let tm = if s.bool() {
        let h = named(s, 0, 23).unwrap_or_else(|| if s.chance(1, 5) { 23 } else { s.range(0, 23) });
        let m = named(s, 0, 59).unwrap_or_else(|| if s.chance(1, 5) { 59 } else { s.range(0, 59) });
        let sec = named(s, 0, 59).unwrap_or_else(|| if s.chance(1, 5) { 59 } else { s.range(0, 59) });
        let frac = if s.chance(1, 3) {
            let n = s.sized(TEXT, 2000).unwrap_or_else(|| 1 + s.usize(if s.stretch == TEXT { 80 } else { 9 }));
            Some(match s.number() {
                Some(k) => k.to_string(),
                None => digits(s, n),
            })
        } else {
            None
        };
        let off = match s.weighted(&[1, 1, 1]) {
            0 => Off::None,
            1 => Off::Zulu,
            _ => {
                let c = if s.bool() { '-' } else { '+' };
                let h = named(s, 0, 23).unwrap_or_else(|| if s.chance(1, 5) { 23 } else { s.range(0, 23) });
                let m = named(s, 0, 59).unwrap_or_else(|| if s.chance(1, 5) { 59 } else { s.range(0, 59) });
                Off::Amount(c, two(h), two(m))
            }
        };
        Some(Tm { h: two(h), m: two(m), s: two(sec), frac, off })
    } else {
        None
    };
    Dt { y: format!("{:04}", y), mo: two(mo), d: two(d), tm }
}

/// A date-time of the right shape that does not exist; usually off by one in one field.
pub fn bad_date(s: &mut Src) -> Dt {
    let mut d = date(s);
    let n = if d.tm.is_some() { 9 } else { 4 };
    match s.usize(n) {
        0 => d.y = "0000".into(),
        1 => d.mo = ["00", "13", "99", "20"][s.usize(4)].into(),
        2 => d.d = ["00", "32", "99"][s.usize(3)].into(),
        3 => {
            let y: i64 = d.y.parse().unwrap();
            d.mo = ["02", "04", "06", "09", "11"][s.weighted(&[6, 1, 1, 1, 1])].into();
            let m: i64 = d.mo.parse().unwrap();
            d.d = two(month_days(y, m) + 1);
        }
        i => {
            let t = d.tm.as_mut().unwrap();
            let hour = ["24", "25", "99", "30"][s.usize(4)].to_string();
            let sixty = ["60", "61", "99", "70"][s.usize(4)].to_string();
            match i {
                4 => t.h = hour,
                5 => t.m = sixty,
                6 => t.s = sixty,
                7 => t.off = Off::Amount('+', hour, "00".into()),
                _ => t.off = Off::Amount('-', "00".into(), sixty),
            }
        }
    }
    d
}

const PLAIN: [&str; 40] = [
    "a", "b", "Z", "0", "9", " ", "!", "#", "$", "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "=", "?", "@", "[", "]",
    "{", "}", "~", "_", "\u{7f}", "\u{80}", "\u{e9}", "\u{65e5}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{1F600}",
    "\u{10FFFF}",
];
const ESCAPES: [&str; 16] = [
    "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u00e9", "\\uFFFF", "\\uabCD", "\\U0001F600", "\\U0010FFFF",
    "\\U00000041", "\\uD7FF",
];

/// An escape; those of a code point in any spelling of its digits.
fn escape(s: &mut Src) -> String {
    if s.chance(1, 2) {
        return s.pick(&ESCAPES).to_string();
    }
    let c = match s.usize(4) {
        0 => s.usize(0x80) as u32,
        1 => s.usize(0xD800) as u32,
        2 => 0xE000 + s.usize(0x2000) as u32,
        _ => 0x10000 + s.usize(0x100000) as u32,
    };
    let hex = if c > 0xFFFF || s.bool() { format!("U{:08x}", c) } else { format!("u{:04x}", c) };
    let how = s.usize(3);
    let mut out = String::from("\\");
    for (i, d) in hex.chars().enumerate() {
        let up = i > 0 && (how == 1 || (how == 2 && s.bool()));
        out.push(if up { d.to_ascii_uppercase() } else { d });
    }
    out
}

/// A quoted key of any characters.
fn quoted_key(s: &mut Src) -> String {
    let mut out = String::from("\"");
    let mut n = 0;
    let l = len(s, 3, 12);
    loop {
        match (s.word(), s.weighted(&[5, 4, 1, 1])) {
            _ if l.plain => out.push_str(PLAIN[s.usize(30)]),
            (Some(w), _) if refparse::str_ok(w, St::Basic) => out.push_str(w),
            (_, 0) => out.push_str(s.pick(&PLAIN)),
            (_, 1) => out.push_str(&escape(s)),
            (_, 2) => out.push('\''),
            _ => out.push_str(s.pick(&["a", "key", ".", "[0]", "]", " = ", "# "])),
        }
        n += 1;
        if !l.more(s, n) {
            break;
        }
    }
    out.push('"');
    out
}

pub fn str_text(s: &mut Src, t: St, nl: usize) -> String {
    let mut out = String::new();
    let mut n = 0;
    let l = len(s, 5, 30);
    while l.more(s, n) {
        n += 1;
        if l.plain {
            out.push_str(PLAIN[s.usize(30)]);
            continue;
        }
        if let Some(w) = s.word() {
            if refparse::str_ok(w, t) && !w.contains('\'') && !w.contains('"') {
                if s.chance(1, 3) {
                    return w.to_string();
                }
                out.push_str(w);
            }
            continue;
        }
        match t {
            St::Basic => match s.weighted(&[6, 2, 1]) {
                0 => out.push_str(s.pick(&PLAIN)),
                1 => out.push_str(&escape(s)),
                _ => out.push('\''),
            },
            St::MlBasic => match s.weighted(&[6, 2, 1, 2, 1, 1, 1]) {
                0 => out.push_str(s.pick(&PLAIN)),
                1 => out.push_str(&escape(s)),
                2 => out.push_str("'"),
                3 => out.push_str(&newline(s, nl)),
                4 => {
                    out.push('\\');
                    out.push_str(&newline(s, nl));
                    out.push_str(&ws(s));
                }
                5 => out.push('\t'),
                _ => {
                    // up to two quotes, and then something else
                    out.push_str(["\"", "\"\""][s.usize(2)]);
                    out.push_str(["a", "\\n", " ", "'"][s.usize(4)]);
                }
            },
            St::Literal => match s.weighted(&[6, 1, 1, 1]) {
                0 => out.push_str(s.pick(&PLAIN)),
                1 => out.push('\\'),
                2 => out.push('"'),
                _ => out.push('\t'),
            },
            St::MlLiteral => match s.weighted(&[6, 1, 1, 1, 2, 1]) {
                0 => out.push_str(s.pick(&PLAIN)),
                1 => out.push('\\'),
                2 => out.push_str(["\"", "\"\"\""][s.usize(2)]),
                3 => out.push('\t'),
                4 => out.push_str(&newline(s, nl)),
                _ => {
                    out.push_str(["'", "''"][s.usize(2)]);
                    out.push_str(["a", "\\", " ", "\""][s.usize(4)]);
                }
            },
        }
    }
    out
}

pub const STS: [St; 4] = [St::Basic, St::MlBasic, St::Literal, St::MlLiteral];

/// A scalar of the given kind: 0 integer, 1 float, 2 boolean, 3 date-time, 4 string.
pub fn scalar(s: &mut Src, kind: usize, nl: usize) -> MVal {
    if let Some(w) = s.word() {
        // a text of the sources that is a value as it stands
        match kind {
            0 if refparse::int_ok(w) => return MVal::Int(w.into()),
            1 if refparse::float_ok(w) => return MVal::Float(w.into()),
            3 => {
                if let Some(d) = refparse::dt_parse(w).filter(|d| d.exists()) {
                    return MVal::Dt(d);
                }
            }
            _ => (),
        }
    }
    match kind {
        0 => MVal::Int(int_text(s)),
        1 => MVal::Float(float_text(s)),
        2 => MVal::Bool(s.bool()),
        3 => MVal::Dt(date(s)),
        _ => {
            let t = STS[s.weighted(&[3, 2, 2, 2])];
            MVal::Str(str_text(s, t, nl), t)
        }
    }
}

pub fn any_scalar(s: &mut Src, nl: usize) -> MVal {
    let k = s.weighted(&[3, 2, 1, 2, 4]);
    scalar(s, k, nl)
}

/// A scalar that differs from another in something small, as a value that is compared or replaced carelessly might.
pub fn near_scalar(s: &mut Src, m: &MVal) -> MVal {
    let n = match *m {
        MVal::Int(ref t) => MVal::Int(near_number(s, t)),
        MVal::Float(ref t) => MVal::Float(near_number(s, t)),
        MVal::Bool(b) => MVal::Bool(!b),
        MVal::Dt(ref d) => MVal::Dt(near_date(s, d)),
        MVal::Str(ref t, st) => match s.usize(3) {
            0 => MVal::Str(t.clone(), STS[s.usize(4)]),
            _ => MVal::Str(near_text(s, t), st),
        },
        ref o => o.clone(),
    };
    let ok = match n {
        MVal::Int(ref t) => refparse::int_ok(t),
        MVal::Float(ref t) => refparse::float_ok(t),
        MVal::Dt(ref d) => refparse::dt_parse(&d.text()).map_or(false, |x| x.exists() && x == *d),
        MVal::Str(ref t, st) => refparse::str_ok(t, st),
        _ => true,
    };
    if ok {
        n
    } else {
        any_scalar(s, 2)
    }
}

fn near_number(s: &mut Src, t: &str) -> String {
    let signed = t.starts_with(|c| c == '+' || c == '-');
    match s.usize(7) {
        0 => (if signed { t[1..].to_string() } else { format!("{}{}", ["+", "-"][s.usize(2)], t) }),
        1 => t.replace('_', ""),
        2 => (if t.contains('e') { t.replace('e', "E") } else { t.replace('E', "e") }),
        3 => (if t.contains("e+") { t.replace("e+", "e") } else { t.replace('e', "e+") }),
        4 => format!("{}{}", t, ["0", "_0", ".0", "e0", "e1"][s.usize(5)]),
        5 => t.trim_end_matches('0').to_string(),
        _ => {
            let at = s.usize(t.len() + 1);
            let mut t = t.to_string();
            t.insert_str(at, "_");
            t
        }
    }
}

fn near_date(s: &mut Src, d: &Dt) -> Dt {
    let mut d = d.clone();
    let step = |s: &mut Src, t: &str| match t.parse::<i64>() {
        Ok(n) => two((n + 1 - 2 * s.range(0, 1)).max(0)),
        Err(_) => t.to_string(),
    };
    let what = s.usize(9);
    match (what, &mut d.tm) {
        (0, _) => d.d = step(s, &d.d),
        (1, _) => d.mo = step(s, &d.mo),
        (2, _) => {
            let y: i64 = d.y.parse().unwrap_or(1);
            d.y = format!("{:04}", (y + [1, -1, 100, 10][s.usize(4)]).max(0));
        }
        (3, tm) => {
            *tm = match *tm {
                Some(_) => None,
                None => {
                    let frac = if s.bool() { Some("0".to_string()) } else { None };
                    Some(Tm { h: "00".into(), m: "00".into(), s: "00".into(), frac, off: [Off::None, Off::Zulu][s.usize(2)].clone() })
                }
            }
        }
        (4, Some(t)) => match s.usize(3) {
            0 => t.h = step(s, &t.h),
            1 => t.m = step(s, &t.m),
            _ => t.s = step(s, &t.s),
        },
        (5, Some(t)) | (6, Some(t)) => {
            t.frac = match t.frac.take() {
                None => Some(["0", "00", "000", "0000000"][s.usize(4)].to_string()),
                Some(f) => match s.usize(5) {
                    0 => None,
                    1 => Some(f + "0"),
                    2 => Some(format!("0{}", f)),
                    3 => Some(f.trim_end_matches('0').to_string()).filter(|f| !f.is_empty()),
                    _ => Some(f.trim_start_matches('0').to_string()).filter(|f| !f.is_empty()),
                },
            }
        }
        (7, Some(t)) => {
            t.off = match t.off.clone() {
                Off::None => [Off::Zulu, Off::Amount('+', "00".into(), "00".into())][s.usize(2)].clone(),
                Off::Zulu => [Off::None, Off::Amount(['+', '-'][s.usize(2)], "00".into(), "00".into())][s.usize(2)].clone(),
                Off::Amount(c, h, m) => match s.usize(4) {
                    0 => Off::Amount(if c == '+' { '-' } else { '+' }, h, m),
                    1 => Off::Amount(c, m, h),
                    2 => Off::Zulu,
                    _ => Off::None,
                },
            }
        }
        (_, Some(t)) => {
            // the same moment, or the same digits in other places
            if let Off::Amount(c, h, m) = t.off.clone() {
                t.off = Off::Amount(c, step(s, &h), step(s, &m));
            } else {
                std::mem::swap(&mut t.m, &mut t.s);
            }
        }
        _ => (),
    }
    d
}

fn near_text(s: &mut Src, t: &str) -> String {
    match s.usize(10) {
        0 => format!("{}{}", t, [" ", "\t", "\n", "\\", "\r\n", "\u{feff}", "\0"][s.usize(7)]),
        1 => format!("{}{}", [" ", "\n", "\r\n", "\t"][s.usize(4)], t),
        2 => t.trim().to_string(),
        3 => t.to_uppercase(),
        4 => t.to_lowercase(),
        5 => (if t.contains("\r\n") { t.replace("\r\n", "\n") } else { t.replace('\n', "\r\n") }),
        6 => t.replace("\\t", "\t").replace("\\n", "\n").replace("\\\"", "\""),
        7 => t.replace('\t', "\\t").replace('\n', "\\n"),
        8 => t.replace('\u{e9}', "\\u00e9").replace("\\u00E9", "\u{e9}"),
        _ => t.chars().skip(1).collect(),
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Drop everything the model finds an error in.
    pub valid: bool,
    pub items: usize,
    pub depth: usize,
    /// Out of 100: how often an array is mixed, a date impossible, a pair of an inline table a duplicate, a key taken
    /// from those the table already has, a header one that exists.
    pub mixed: u32,
    pub bad_date: u32,
    pub inner_dup: u32,
    pub dup: u32,
    pub same_header: u32,
    /// Weights of blank, key/value, header, array header.
    pub weights: [u32; 4],
    /// How often values are arrays or inline tables, out of 100.
    pub nested: u32,
}

impl Cfg {
    pub fn valid() -> Cfg {
        Cfg {
            valid: true,
            items: 10,
            depth: 3,
            mixed: 0,
            bad_date: 0,
            inner_dup: 0,
            dup: 2,
            same_header: 10,
            weights: [2, 7, 3, 3],
            nested: 35,
        }
    }
    pub fn errors() -> Cfg {
        Cfg {
            valid: false,
            mixed: 12,
            bad_date: 12,
            inner_dup: 8,
            dup: 15,
            same_header: 35,
            ..Cfg::valid()
        }
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    pub nl: usize,
    pool: Vec<String>,
    headers: Vec<(bool, Vec<String>)>,
    long: usize,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, mut cfg: Cfg) -> Gen<'a> {
        let nl = s.weighted(&[5, 2, 1]);
        let mut pool: Vec<String> = vec![];
        let mut n = 2 + s.usize(6);
        s.stretch(60);
        match s.stretch {
            ITEMS => cfg.items = s.sized(ITEMS, 400).unwrap_or(cfg.items * 10),
            DEPTH => {
                cfg.nested = 92;
                cfg.items = 3;
                cfg.depth = s.sized(DEPTH, 40).unwrap_or_else(|| cfg.depth + 4 + s.usize(16));
            }
            PATH => cfg.same_header = 5,
            FAMILY => {
                cfg.items = s.sized(FAMILY, 100).map_or(cfg.items * 4, |n| n * 2 + 4);
                cfg.weights = [1, 3, 12, 1];
                cfg.same_header = 5;
            }
            REPEAT => {
                cfg.items = s.sized(REPEAT, 100).map_or(cfg.items * 6, |n| n * 2 + 4);
                cfg.weights = [1, 3, 2, 9];
                cfg.same_header = 85;
                n = 3;
            }
            _ => (),
        }
        for _ in 0..n {
            let k = if s.chance(1, 10) { quoted_key(s) } else { KEYS[s.usize(KEYS.len())].to_string() };
            if !pool.contains(&k) {
                pool.push(k);
            }
        }
        Gen { s, cfg, nl, pool, headers: vec![], long: 2 }
    }
    pub fn key(&mut self) -> String {
        if let Some(w) = self.s.word() {
            let q = format!("\"{}\"", w);
            // not both with and without quotes
            if refparse::key_ok(w) && !KEYS.contains(&w) {
                return w.to_string();
            } else if refparse::key_ok(&q) && !refparse::key_ok(w) {
                return q;
            }
        }
        if let Some(n) = self.s.sized(TEXT, 5000) {
            if self.s.chance(1, 12) {
                // as long as that, with the quotes or without
                return if self.s.bool() {
                    quoted_key(self.s)
                } else {
                    let t = digits(self.s, n);
                    format!("L{}", &t[1..])
                };
            }
        }
        if self.s.chance(1, 8) {
            let i = self.s.usize(KEYS.len());
            KEYS[i].to_string()
        } else if self.s.chance(1, 16) {
            let n = 1 + self.s.usize(24);
            if self.s.bool() {
                quoted_key(self.s)
            } else {
                format!("long-{}", digits(self.s, n))
            }
        } else {
            let i = self.s.usize(self.pool.len());
            self.pool[i].clone()
        }
    }
    fn fresh_key(&mut self, used: &[String]) -> String {
        for _ in 0..6 {
            let k = self.key();
            if !used.contains(&k) {
                return k;
            }
        }
        let mut i = used.len();
        loop {
            let k = format!("k{}", i);
            if !used.contains(&k) {
                return k;
            }
            i += 1;
        }
    }

    /// What a value means; `kind` 5 is an array and 6 an inline table.
    pub fn mval(&mut self, depth: usize, kind: Option<usize>) -> MVal {
        let kind = kind.unwrap_or_else(|| self.kind(depth));
        match kind {
            5 => {
                let n = self.len();
                let ek = self.kind(depth.saturating_sub(1));
                let mut v: Vec<MVal> = (0..n).map(|_| self.mval(depth.saturating_sub(1), Some(ek))).collect();
                if n > 1 && self.s.chance(self.cfg.mixed, 100) {
                    let i = self.s.usize(n);
                    let other = (ek + 1 + self.s.usize(4)) % 5;
                    v[i] = self.mval(0, Some(other));
                }
                MVal::Arr(v)
            }
            6 => {
                let n = self.len();
                let mut v: Vec<(String, MVal)> = vec![];
                let mut used: Vec<String> = vec![];
                for i in 0..n {
                    let k = if i > 0 && self.s.chance(self.cfg.inner_dup, 100) {
                        let j = self.s.usize(i);
                        used[j].clone()
                    } else {
                        self.fresh_key(&used)
                    };
                    used.push(k.clone());
                    v.push((k, self.mval(depth.saturating_sub(1), None)));
                }
                MVal::Inl(v)
            }
            3 if self.s.chance(self.cfg.bad_date, 100) => MVal::Dt(bad_date(self.s)),
            k => scalar(self.s, k, self.nl),
        }
    }
    fn len(&mut self) -> usize {
        let mut n = 0;
        if self.s.stretch == DEPTH {
            return 1 + self.s.weighted(&[12, 1]);
        }
        if self.s.stretch == LENGTH && self.long > 0 && self.s.bool() {
            self.long -= 1;
            if let Some(n) = self.s.sized(LENGTH, if self.long > 0 { 400 } else { 40 }) {
                return n;
            }
            return 12 + self.s.usize(if self.long > 0 { 150 } else { 20 });
        }
        while self.s.more(n, 2, 6) {
            n += 1;
        }
        // now and then more than ten, for indexes of two digits
        if self.s.chance(1, 40) {
            n += 10;
        }
        n
    }
    fn kind(&mut self, depth: usize) -> usize {
        if depth > 0 && self.s.chance(self.cfg.nested, 100) {
            5 + self.s.usize(2)
        } else {
            self.s.weighted(&[3, 2, 1, 2, 4])
        }
    }

    /// Gives a value its formatting.
    pub fn format(&mut self, m: &MVal) -> Val {
        match *m {
            MVal::Arr(ref v) => {
                let open = trivia(self.s, self.nl);
                let n = v.len();
                let mut elems = vec![];
                for (i, x) in v.iter().enumerate() {
                    let val = self.format(x);
                    let sep = if i + 1 < n || self.s.chance(1, 4) {
                        Some((trivia(self.s, self.nl), ws(self.s)))
                    } else {
                        None
                    };
                    let trivia = trivia(self.s, self.nl);
                    elems.push(Elem { val, sep, trivia });
                }
                Val::Arr { open, elems }
            }
            MVal::Inl(ref v) => {
                let open = ws(self.s);
                let n = v.len();
                let mut pairs = vec![];
                for (i, (k, x)) in v.iter().enumerate() {
                    let (ws1, ws2) = (ws(self.s), ws(self.s));
                    let val = self.format(x);
                    let sep = if i + 1 < n { Some((trivia(self.s, self.nl), ws(self.s))) } else { None };
                    let trivia = trivia(self.s, self.nl);
                    pairs.push(Pair { key: k.clone(), ws1, ws2, val, sep, trivia });
                }
                Val::Inl { open, pairs, close: String::new() }
            }
            ref m => Val::Scalar(m.clone()),
        }
    }

    fn header(&mut self, mut array: bool) -> (bool, Vec<String>) {
        if !self.headers.is_empty() && self.s.chance(self.cfg.same_header, 100) {
            let i = self.s.usize(self.headers.len());
            let h = self.headers[i].clone();
            let flip = if self.s.stretch == REPEAT { 30 } else { 4 };
            return if self.s.chance(1, flip) { (array, h.1) } else { h };
        }
        let mut path = vec![];
        if !self.headers.is_empty() && self.s.chance(1, 2) {
            let i = self.s.usize(self.headers.len());
            path = self.headers[i].1.clone();
            if self.s.chance(1, 4) {
                let n = self.s.usize(path.len());
                path.truncate(n);
            }
            if array && self.headers[i].0 && self.s.chance(1, 3) && !path.is_empty() {
                return (true, path);
            }
        }
        if self.s.stretch == FAMILY && self.s.chance(9, 10) {
            // one table with many children, mentioned in any order
            let n = self.s.sized(FAMILY, 200).unwrap_or(40);
            let parent = self.pool[..1 + self.pool.len() / 4].to_vec();
            path = parent;
            if self.s.chance(9, 10) {
                path.push(format!("k{}", self.s.usize(n)));
                if self.s.chance(1, 5) {
                    path.push(self.key());
                }
            }
            return (array && self.s.bool(), path);
        }
        let long = self.s.stretch == PATH && self.s.bool();
        loop {
            path.push(self.key());
            let go = if let (true, Some(n)) = (long, self.s.sized(PATH, 60)) {
                path.len() < n
            } else if long { path.len() < 24 && self.s.chance(9, 10) } else { path.len() < 5 && self.s.chance(1, 3) };
            if !go {
                break;
            }
        }
        if path.len() > 6 && !long {
            path.truncate(6);
            array = false;
        }
        (array, path)
    }

    pub fn item(&mut self, last: bool, table_keys: &mut Vec<String>) -> Item {
        let kind = self.s.weighted(&self.cfg.weights.clone());
        let pre = ws(self.s);
        let kind = match kind {
            0 => Kind::Blank,
            1 => {
                let key = if !table_keys.is_empty() && self.s.chance(self.cfg.dup, 100) {
                    let i = self.s.usize(table_keys.len());
                    table_keys[i].clone()
                } else if self.s.chance(9, 10) {
                    self.fresh_key(table_keys)
                } else {
                    self.key()
                };
                table_keys.push(key.clone());
                let (ws1, ws2) = (ws(self.s), ws(self.s));
                let d = self.cfg.depth;
                let m = self.mval(d, None);
                Kind::KeyVal { key, ws1, ws2, val: self.format(&m) }
            }
            k => {
                let (array, path) = self.header(k == 3);
                let keys = path
                    .iter()
                    .map(|k| HKey {
                        pre: if self.s.chance(1, 6) { ws(self.s) } else { String::new() },
                        key: k.clone(),
                        post: if self.s.chance(1, 6) { ws(self.s) } else { String::new() },
                    })
                    .collect();
                table_keys.clear();
                self.headers.push((array, path));
                Kind::Header { array, keys }
            }
        };
        let post = if let Kind::Blank = kind { String::new() } else { ws(self.s) };
        let comment = if self.s.chance(1, 6) { Some(comment(self.s)) } else { None };
        let nl = if last && self.s.bool() { String::new() } else { newline(self.s, self.nl) };
        Item { pre, kind, post, comment, nl }
    }

    pub fn doc(&mut self) -> Doc {
        let mut doc = Doc::default();
        let mut model = Model::new();
        let mut keys = vec![];
        let avg = self.cfg.items as u32;
        let mut n = 1;
        while self.s.more(n, avg, self.cfg.items * 3) {
            n += 1;
        }
        if self.s.sized(ITEMS, 400).is_some() {
            n = n.max(self.cfg.items + 1);
        }
        for i in 0..n {
            let mut it = self.item(i + 1 == n, &mut keys);
            if self.cfg.valid {
                let mut m = model.clone();
                m.step(i, &it);
                if m.errors.is_empty() {
                    model = m;
                } else {
                    if let Kind::Header { .. } = it.kind {
                        self.headers.pop();
                    }
                    it.kind = Kind::Blank;
                    it.post = String::new();
                }
            }
            doc.items.push(it);
        }
        // the text has to be read back as the same items: a newline at the end starts one more
        if !doc.items.last().unwrap().nl.is_empty() {
            doc.items.push(Item { pre: String::new(), kind: Kind::Blank, post: String::new(), comment: None, nl: String::new() });
        }
        doc
    }
}

pub fn doc(s: &mut Src, cfg: Cfg) -> Doc {
    let den = match s.size {
        Some(n) if n < 300 => 40,
        Some(n) if n < 3000 => 80,
        Some(_) => 300,
        None => 1500,
    };
    if s.chance(1, den) {
        s.heavy = true;
        if let Some(d) = crate::grow::grown(s, &cfg) {
            return d;
        }
    }
    Gen::new(s, cfg).doc()
}

const SOUP: [&str; 68] = [
    "a", "b", "=", " ", "\n", "\"", "'", "[", "]", "{", "}", ",", ".", "#", "1", "0", "-", "+", "_", "e", "T", "Z", ":", "\\", "\t", "\r\n",
    "\r", "\"\"\"", "'''", "[[", "]]", "true", "false", "1979-05-27", "T07:32:00", "1.5", "12", "\\u", "\\n", "key", " = ", "= 1", "\u{e9}",
    "\u{1F600}", "\u{0}", "\u{1f}", "\u{7f}", "\u{85}", "a = 1\n", "[a]\n", "[[a]]\n", "[a.b]\n", "b = [1, 2]\n", "c = {a = 1}\n", "a.b",
    "\u{663}", "+1", "1_0", "E", "0.1", ", ", "\u{feff}",
    "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{3000}", "\n\n",
];

pub fn soup(s: &mut Src) -> String {
    let mut out = String::new();
    let mut n = 0;
    while s.more(n, 14, 60) {
        n += 1;
        match s.word() {
            Some(w) => out.push_str(w),
            None => out.push_str(s.pick(&SOUP)),
        }
    }
    out
}

fn boundary(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Damages a text in a few places.
pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut t = text.to_string();
    let n = 1 + s.usize(3);
    for _ in 0..n {
        let len = t.len();
        let a = if s.chance(1, 12) { len } else { boundary(&t, s.usize(len + 1)) };
        match s.weighted(&[4, 4, 2, 2, 1]) {
            0 => {
                // delete a character
                if let Some(c) = t[a..].chars().next() {
                    t.replace_range(a..a + c.len_utf8(), "");
                }
            }
            1 => {
                let x = s.word().unwrap_or(SOUP[s.usize(SOUP.len())]);
                t.insert_str(a, x);
            }
            2 => {
                if let Some(c) = t[a..].chars().next() {
                    let x = s.pick(&SOUP).to_string();
                    t.replace_range(a..a + c.len_utf8(), &x);
                }
            }
            3 => {
                // repeat or delete a piece
                let b = boundary(&t, (a + 1 + s.usize(20)).min(len));
                let b = b.max(a);
                if s.bool() {
                    let times = if s.chance(1, 16) { [8, 40, 300][s.usize(3)] } else { 1 };
                    let piece = t[a..b].repeat(times);
                    t.insert_str(b, &piece);
                } else {
                    t.replace_range(a..b, "");
                }
            }
            _ => t.truncate(a),
        }
    }
    t
}
