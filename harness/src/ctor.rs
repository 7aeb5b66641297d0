//! The checks of the functions that make values, of their validation, display and equality.
use crate::ast::*;
use crate::checks::*;
use crate::edits::*;
use crate::ensure;
use crate::gen::*;
use crate::obs::*;
use crate::refparse;
use crate::runner::*;
use crate::tape::*;
use serde_json::json;
use std::error::Error;
use tomllib::types::*;

type Made = Result<Value<'static>, TOMLError>;

/// A constructor gave what it should: the value if there is one, an error with a description if not.
fn made(what: &str, got: &Made, want: Option<&MVal>) -> Res {
    match (got, want) {
        (&Ok(ref v), Some(w)) => {
            ensure!(to_mval(v) == *w, "{} is {:?}, expected {:?}", what, v, w);
            ensure!(v.validate(), "{} gives {:?}, which validate() rejects", what, v);
            let shown = v.to_string();
            ensure!(shown == w.text(""), "{} is displayed as {:?}, expected {:?}", what, shown, w.text(""));
            // and it can be written in a document
            let t = format!("a = {}\nb = [{}]\n", shown, shown);
            let (p, o) = parse(&t);
            ensure!(o.name == "Full", "{} is displayed as {:?}, which is read as {:?}", what, shown, o);
            for k in ["a", "b[0]"] {
                let back = p.get_value(k);
                ensure!(back.as_ref() == Some(v), "{} is displayed as {:?}, which is read back as {:?}", what, shown, back);
            }
        }
        (&Err(ref e), None) => {
            ensure!(!e.description().is_empty(), "{} fails without a description", what);
            ensure!(e.to_string() == e.description(), "the error of {} is displayed as {:?}", what, e.to_string());
        }
        (&Ok(ref v), None) => return Err(format!("{} gives {:?}, but that is not TOML", what, v)),
        (&Err(ref e), Some(w)) => return Err(format!("{} fails with {:?}, but {:?} is TOML", what, e.to_string(), w.text(""))),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------------------ C18

fn number_strings(c: &mut Ctx, t: &str) -> Res {
    c.case(t);
    c.sample(|| json!({ "text": t }));
    let int = refparse::int_ok(t);
    let float = refparse::float_ok(t);
    c.nontrivial = t.bytes().any(|b| b.is_ascii_digit());
    c.label_if(int, "integer");
    c.label_if(float, "float");
    let w = MVal::Int(t.to_string());
    made(&format!("int_from_str({:?})", t), &calls::int_from_str(t), if int { Some(&w) } else { None })?;
    made(&format!("int_from_str({:?}) of a String", t), &Value::int_from_str(t.to_string()), if int { Some(&w) } else { None })?;
    let w = MVal::Float(t.to_string());
    made(&format!("float_from_str({:?})", t), &calls::float_from_str(t), if float { Some(&w) } else { None })?;
    let b = if t.eq_ignore_ascii_case("true") {
        Some(MVal::Bool(true))
    } else if t.eq_ignore_ascii_case("false") {
        Some(MVal::Bool(false))
    } else {
        None
    };
    made(&format!("bool_from_str({:?})", t), &calls::bool_from_str(t), b.as_ref())?;
    // what was made before has no influence
    ensure!(
        calls::float_from_str(t).is_ok() == float && calls::int_from_str(t).is_ok() == int,
        "int_from_str({:?}) or float_from_str({:?}) gives something else the second time",
        t,
        t
    );
    Ok(())
}

const NUMS: [char; 12] = ['0', '1', '9', '_', '.', 'e', 'E', '+', '-', ' ', '\n', '\u{663}'];

fn c18_short(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    number_strings(c, &short_text(&NUMS, i))
}

/// A word or number with a character that some folding or classification takes for the right one.
fn lookalike(s: &mut Src) -> String {
    const FOLD: [(char, &[char]); 16] = [
        ('s', &['\u{17f}', '\u{ff53}', '\u{15a}', '\u{1e9e}']),
        ('t', &['\u{ff54}', '\u{163}', '\u{1e97}']),
        ('r', &['\u{ff52}']),
        ('u', &['\u{fc}', '\u{ff55}']),
        ('e', &['\u{e9}', '\u{ff45}', '\u{435}', '\u{212f}']),
        ('f', &['\u{ff46}', '\u{192}', '\u{fb00}']),
        ('a', &['\u{430}', '\u{ff41}', '\u{1d41a}']),
        ('l', &['\u{ff4c}', 'I', '1', '\u{130}']),
        ('0', &['\u{660}', '\u{ff10}', '\u{1d7ce}', 'O']),
        ('1', &['\u{661}', '\u{ff11}', '\u{b9}', '\u{2460}']),
        ('2', &['\u{b2}', '\u{966}', '\u{ff12}']),
        ('+', &['\u{ff0b}', '\u{207a}']),
        ('-', &['\u{2212}', '\u{ff0d}', '\u{2010}']),
        ('.', &['\u{ff0e}', ',', '\u{66b}']),
        ('_', &['\u{ff3f}', '\u{203f}']),
        ('E', &['\u{395}', '\u{ff25}']),
    ];
    let t = ["true", "false", "TRUE", "FALSE", "10", "-210", "+1_0", "1.0", "1e10", "2E-1", "0.1e+2"][s.usize(11)].to_string();
    let n = t.chars().count();
    let at = s.usize(n);
    let c = t.chars().nth(at).unwrap();
    let fold = FOLD.iter().find(|f| f.0 == c || f.0 == c.to_ascii_lowercase());
    match fold {
        Some(f) => t.chars().enumerate().map(|(i, x)| if i == at { f.1[s.usize(f.1.len())] } else { x }).collect(),
        None => t + ["\u{fe0f}", "\u{301}", "\u{200b}", "\u{a0}", "\0"][s.usize(5)],
    }
}

fn c18_strings(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    s.stretch_only(TEXT, 30);
    let t = match s.usize(5) {
        0 => int_text(s),
        1 => float_text(s),
        3 => lookalike(s),
        2 => ["true", "false", "True", "FALSE", "tRuE", "fAlSe", "truefalse", "t", "", "yes", "1"][s.usize(11)].to_string(),
        _ => {
            let n = 1 + s.usize(25);
            digits(s, n)
        }
    };
    let t = if s.chance(1, 3) { mutate(s, &t) } else { t };
    number_strings(c, &t)
}

/// A number of 64 bits, most often one near a power of two or ten.
fn bits(s: &mut Src) -> u64 {
    if let Some(n) = s.number() {
        return n as u64;
    }
    let hi = s.below(u32::MAX) as u64;
    let lo = s.below(u32::MAX) as u64;
    match s.usize(4) {
        0 => s.below(2000) as u64,
        1 => {
            let k = s.usize(64);
            (1u64 << k).wrapping_add(s.below(3) as u64).wrapping_sub(1)
        }
        2 => {
            let k = s.usize(20) as u32;
            10u64.wrapping_pow(k).wrapping_add(s.below(3) as u64).wrapping_sub(1)
        }
        _ => hi << 32 | lo,
    }
}

fn c18_int(s: &mut Src, i: u64, c: &mut Ctx) -> Res {
    let n = match i {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => i64::MIN + 1,
        3 => -1,
        _ => {
            let b = bits(s) as i64;
            if s.bool() {
                b.wrapping_neg()
            } else {
                b
            }
        }
    };
    c.case(&n.to_string());
    c.sample(|| json!({ "int": n }));
    c.nontrivial = true;
    let w = MVal::Int(n.to_string());
    made(&format!("int({})", n), &Ok(Value::int(n)), Some(&w))?;
    made(&format!("int_from_str of {}", n), &Value::int_from_str(n.to_string()), Some(&w))?;
    ensure!(Value::int(n) == Value::int_from_str(n.to_string()).unwrap(), "int({}) is not int_from_str of its text", n);
    for b in [true, false] {
        made(&format!("bool({})", b), &Ok(Value::bool(b)), Some(&MVal::Bool(b)))?;
    }
    Ok(())
}

fn c18_float(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let f = match s.usize(4) {
        0 => f64::from_bits(bits(s)),
        1 => bits(s) as f64 / [10.0, 100.0, 8.0, 3.0, 1e9][s.usize(5)],
        2 => [5e-324, f64::MIN_POSITIVE, f64::EPSILON, 0.1, 1e15 + 0.5, f64::MAX, f64::NAN, f64::INFINITY, 0.0, -0.0, 1e300][s.usize(11)],
        _ => float_text(s).replace('_', "").parse().unwrap_or(0.5),
    };
    let f = if s.bool() { -f } else { f };
    c.case(&format!("{:x}", f.to_bits()));
    c.sample(|| json!({ "float": format!("{:?}", f) }));
    let v = Value::float(f);
    let t = match v {
        Value::Float(ref t) => t.to_string(),
        ref o => return Err(format!("float({:?}) is {:?}", f, o)),
    };
    let back: f64 = match t.parse() {
        Ok(b) => b,
        Err(_) => return Err(format!("float({:?}) is {:?}, which is no number", f, t)),
    };
    ensure!(
        back.to_bits() == f.to_bits() || (back.is_nan() && f.is_nan()),
        "float({:?}) is {:?}, which is another number",
        f,
        t
    );
    // a whole number is made into an integer's text, and what is no number into that of a word
    if !refparse::float_ok(&t) && (!f.is_finite() || f.fract() == 0.0) && c.is_known("float-integral") {
        return Ok(());
    }
    c.nontrivial = true;
    made(&format!("float({:?})", f), &Ok(v.clone()), Some(&MVal::Float(t)))
}

pub fn float_finding() -> Option<String> {
    let v = Value::float(5.0);
    if v.validate() {
        None
    } else {
        Some(format!("Value::float(5.0) is {:?}, which is no TOML float: it is displayed as {:?} and set_value rejects it", v, v.to_string()))
    }
}

// ------------------------------------------------------------------------------------------------------------ C19

fn junk_field(s: &mut Src, good: &str) -> String {
    match s.usize(4) {
        0 => format!("{}{}", ["+", "0", "-", " "][s.usize(4)], &good[1.min(good.len())..]),
        1 => format!("{}{}", good, ["0", " ", "a", "\n", "\u{663}"][s.usize(5)]),
        2 => good.chars().skip(1).collect(),
        _ => ["", "a", "+1", "1", "001", "00", "-1", "0x", "\u{661}\u{662}", "\u{661}", " 1", "1 ", "1:", "99", "60", "24"][s.usize(16)].to_string(),
    }
}

/// A date-time of any shape, of which most exist or almost do.
fn any_dt(s: &mut Src) -> Dt {
    s.stretch_only(TEXT, 60);
    let mut d = match s.usize(3) {
        0 => date(s),
        1 => bad_date(s),
        _ => date(s),
    };
    if s.chance(1, 4) {
        let n = s.usize(9);
        match n {
            0 => d.y = junk_field(s, &d.y),
            1 => d.mo = junk_field(s, &d.mo),
            2 => d.d = junk_field(s, &d.d),
            _ => {
                if let Some(ref mut t) = d.tm {
                    match n {
                        3 => t.h = junk_field(s, &t.h),
                        4 => t.m = junk_field(s, &t.m),
                        5 => t.s = junk_field(s, &t.s),
                        6 => t.frac = Some(junk_field(s, "12")),
                        _ => {
                            let j = junk_field(s, "12");
                            t.off = if n == 7 { Off::Amount('+', j, "00".into()) } else { Off::Amount('-', "00".into(), j) }
                        }
                    }
                }
            }
        }
    }
    d
}

fn from_strs(d: &Dt) -> (&'static str, Made) {
    let (y, mo, da) = (&d.y[..], &d.mo[..], &d.d[..]);
    match d.tm {
        None => ("date_from_str", calls::date_from_str(y, mo, da)),
        Some(ref t) => {
            let (h, m, s) = (&t.h[..], &t.m[..], &t.s[..]);
            match (&t.frac, &t.off) {
                (&None, &Off::None) => ("datetime_from_str", calls::datetime_from_str(y, mo, da, h, m, s)),
                (&Some(ref f), &Off::None) => ("datetime_frac_from_str", calls::datetime_frac_from_str(y, mo, da, h, m, s, &f[..])),
                (&None, &Off::Zulu) => ("datetime_zulu_from_str", calls::datetime_zulu_from_str(y, mo, da, h, m, s)),
                (&Some(ref f), &Off::Zulu) => ("datetime_full_zulu_from_str", calls::datetime_full_zulu_from_str(y, mo, da, h, m, s, &f[..])),
                (&None, &Off::Amount(c, ref oh, ref om)) => (
                    "datetime_offset_from_str",
                    calls::datetime_offset_from_str(y, mo, da, h, m, s, &c.to_string()[..], &oh[..], &om[..]),
                ),
                (&Some(ref f), &Off::Amount(c, ref oh, ref om)) => (
                    "datetime_full_from_str",
                    calls::datetime_full_from_str(y, mo, da, h, m, s, &f[..], &c.to_string()[..], &oh[..], &om[..]),
                ),
            }
        }
    }
}

fn c19_strings(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let d = any_dt(s);
    c.case(&d.text());
    c.sample(|| json!({ "datetime": d.text() }));
    c.nontrivial = true;
    c.label(if d.exists() { "exists" } else { "does not exist" });
    let w = MVal::Dt(d.clone());
    let want = if d.exists() { Some(&w) } else { None };
    let (name, got) = from_strs(&d);
    c.label(name);
    made(&format!("{} of {:?}", name, d), &got, want)?;
    parts(&d)
}

fn parts(d: &Dt) -> Res {
    // the parts of a date-time are valid by themselves
    let date_only = Dt { tm: None, ..d.clone() };
    let r = Date::from_str(&d.y[..], &d.mo[..], &d.d[..]);
    ensure!(r.is_ok() == date_only.exists(), "Date::from_str of {:?} is {:?}", date_only, r.is_ok());
    let raw = to_dt(d);
    ensure!(raw.date.validate() == date_only.exists(), "Date::validate of {:?} is {}", date_only, raw.date.validate());
    if let Ok(ref x) = r {
        ensure!(*x == raw.date && x.to_string() == date_only.text(), "Date::from_str of {:?} is {:?}", date_only, x);
    }
    ensure!(raw.validate() == d.exists(), "DateTime::validate of {:?} is {}", d, raw.validate());
    ensure!(raw.to_string() == d.text(), "{:?} is displayed as {:?}", d, raw.to_string());
    ensure!(raw == DateTime::new(raw.date.clone(), raw.time.clone()), "DateTime::new of {:?}", d);
    ensure!(Value::DateTime(raw.clone()).validate() == d.exists(), "Value::validate of {:?}", d);
    if let (Some(t), Some(rt)) = (d.tm.as_ref(), raw.time.as_ref()) {
        let alone = Dt { y: "2000".into(), mo: "01".into(), d: "01".into(), tm: Some(t.clone()) };
        ensure!(rt.validate() == alone.exists(), "Time::validate of {:?} is {}", t, rt.validate());
        ensure!(rt.to_string() == alone.text()[10..], "{:?} is displayed as {:?}", t, rt.to_string());
        let off_ok = |o: &Off| {
            Dt {
                tm: Some(Tm { h: "00".into(), m: "00".into(), s: "00".into(), frac: None, off: o.clone() }),
                ..alone.clone()
            }
            .exists()
        };
        let r = Time::from_str(&t.h[..], &t.m[..], &t.s[..], t.frac.as_ref().map(|f| &f[..]), rt.offset.clone());
        ensure!(r.is_ok() == alone.exists(), "Time::from_str of {:?} is {:?}", t, r.is_ok());
        if let Ok(ref x) = r {
            ensure!(x == rt, "Time::from_str of {:?} is {:?}", t, x);
        }
        if let Some(ref o) = rt.offset {
            ensure!(o.validate() == off_ok(&t.off), "TimeOffset::validate of {:?} is {}", t.off, o.validate());
        }
        if let Off::Amount(ch, ref h, ref m) = t.off {
            let r = TimeOffsetAmount::from_str(&ch.to_string()[..], &h[..], &m[..]);
            ensure!(r.is_ok() == off_ok(&t.off), "TimeOffsetAmount::from_str of {:?} is {:?}", t.off, r.is_ok());
            if let Ok(x) = r {
                ensure!(x.validate() && rt.offset == Some(TimeOffset::Time(x.clone())), "TimeOffsetAmount::from_str of {:?} is {:?}", t.off, x);
                ensure!(x.to_string() == format!("{}{}:{}", ch, h, m), "{:?} is displayed as {:?}", t.off, x.to_string());
            }
        }
    }
    Ok(())
}

/// A number for a field, most often within or just out of its range.
fn field(s: &mut Src, max: usize) -> usize {
    if let Some(n) = s.number() {
        return n;
    }
    match s.weighted(&[8, 2, 1]) {
        0 => s.usize(max + 1),
        1 => max + s.usize(2),
        _ => [0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65536, usize::MAX][s.usize(11)],
    }
}

fn c19_ints(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let (y, mo, d) = (
        if s.chance(1, 3) { [0, 1, 4, 100, 400, 1900, 2000, 2016, 9999, 10000][s.usize(10)] } else { s.usize(3000) },
        1 + field(s, 11).min(usize::MAX - 1),
        1 + field(s, 30).min(usize::MAX - 1),
    );
    let mo = if s.chance(1, 12) { 0 } else { mo };
    let d = if s.chance(1, 12) { 0 } else { d };
    let (h, m, sec) = (field(s, 23), field(s, 59), field(s, 59));
    let (oh, om) = (field(s, 23), field(s, 59));
    let frac = if s.bool() { s.usize(2000) as u64 } else { bits(s) };
    let sign = if s.chance(1, 8) { ['*', ' ', '0', 'Z', '\u{2212}'][s.usize(5)] } else { ['+', '-'][s.usize(2)] };
    let pad = |n: usize| format!("{:0>2}", n);
    let kind = s.usize(7);
    let tm = |frac: Option<u64>, off: Off| {
        Some(Tm { h: pad(h), m: pad(m), s: pad(sec), frac: frac.map(|f| f.to_string()), off })
    };
    let (name, tm, got): (&'static str, Option<Tm>, Made) = match kind {
        0 => ("date_from_int", None, Value::date_from_int(y, mo, d)),
        1 => ("datetime_from_int", tm(None, Off::None), Value::datetime_from_int(y, mo, d, h, m, sec)),
        2 => (
            "datetime_frac_from_int",
            tm(Some(frac), Off::None),
            Value::datetime_frac_from_int(y, mo, d, h, m, sec, frac as usize),
        ),
        3 => (
            "datetime_offset_from_int",
            tm(None, Off::Amount(sign, pad(oh), pad(om))),
            Value::datetime_offset_from_int(y, mo, d, h, m, sec, sign, oh, om),
        ),
        4 => ("datetime_zulu_from_int", tm(None, Off::Zulu), Value::datetime_zulu_from_int(y, mo, d, h, m, sec)),
        5 => (
            "datetime_full_zulu_from_int",
            tm(Some(frac), Off::Zulu),
            Value::datetime_full_zulu_from_int(y, mo, d, h, m, sec, frac),
        ),
        _ => (
            "datetime_full_from_int",
            tm(Some(frac), Off::Amount(sign, pad(oh), pad(om))),
            Value::datetime_full_from_int(y, mo, d, h, m, sec, frac, sign, oh, om),
        ),
    };
    let d = Dt { y: format!("{:0>4}", y), mo: pad(mo), d: pad(d), tm };
    let what = format!("{} of {}", name, d.text());
    c.case(&what);
    c.sample(|| json!({ "function": name, "datetime": d.text() }));
    c.nontrivial = true;
    c.label(name);
    let ok = d.exists();
    c.label(if ok { "exists" } else { "does not exist" });
    let w = MVal::Dt(d);
    made(&what, &got, if ok { Some(&w) } else { None })
}

fn c19_parse(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let d = any_dt(s);
    let t = if s.chance(1, 3) { mutate(s, &d.text()) } else { d.text() };
    parse_dt(c, &t)
}

fn parse_dt(c: &mut Ctx, t: &str) -> Res {
    c.case(t);
    c.sample(|| json!({ "text": t }));
    let want = refparse::dt_parse(t).filter(|d| d.exists());
    c.nontrivial = true;
    c.label(if want.is_some() { "a date-time" } else { "none" });
    let leaked: &str = t;
    let got = calls::datetime_parse(leaked);
    match (&got, &want) {
        (&Ok(ref v), &Some(ref d)) => {
            ensure!(to_mval(v) == MVal::Dt(d.clone()), "datetime_parse({:?}) is {:?}", t, v);
            ensure!(v.to_string() == t, "datetime_parse({:?}) is displayed as {:?}", t, v.to_string());
            let (name, other) = from_strs(d);
            ensure!(other.as_ref().ok() == Some(v), "datetime_parse({:?}) is not what {} gives", t, name);
        }
        (&Err(ref e), &None) => ensure!(!e.description().is_empty(), "datetime_parse({:?}) fails without a description", t),
        (&Ok(ref v), &None) => return Err(format!("datetime_parse({:?}) is {:?}", t, v)),
        (&Err(ref e), &Some(_)) => return Err(format!("datetime_parse({:?}) fails with {:?}", t, e.to_string())),
    }
    Ok(())
}

/// Every date of some years through all the functions, and days that do not exist.
fn c19_calendar(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    let y = [0, 1, 4, 100, 400, 1600, 1700, 1900, 1999, 2000, 2001, 2004, 2015, 2016, 2100, 9999][(i % 16) as usize];
    let mo = (i / 16 % 14) as usize;
    let da = (i / 16 / 14 % 33) as usize;
    let d = Dt { y: format!("{:04}", y), mo: two(mo as i64), d: two(da as i64), tm: None };
    c.case(&d.text());
    c.sample(|| json!({ "date": d.text() }));
    c.nontrivial = true;
    let w = MVal::Dt(d.clone());
    let want = if d.exists() { Some(&w) } else { None };
    made(&format!("date_from_int of {}", d.text()), &Value::date_from_int(y, mo, da), want)?;
    made(&format!("date_from_str of {}", d.text()), &Value::date_from_str(&d.y[..], &d.mo[..], &d.d[..]), want)?;
    parts(&d)?;
    let t = Dt { tm: Some(Tm { h: "00".into(), m: "59".into(), s: "59".into(), frac: None, off: Off::Zulu }), ..d.clone() };
    let w = MVal::Dt(t.clone());
    made(&format!("datetime_zulu_from_int of {}", t.text()), &Value::datetime_zulu_from_int(y, mo, da, 0, 59, 59), want.map(|_| &w))?;
    parse_dt(c, &d.text())?;
    parse_dt(c, &t.text())
}

/// Two date-times are equal if they are the same in every field.
fn c19_equal(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let a = any_dt(s);
    let mut b = a.clone();
    match s.usize(12) {
        0 => (),
        10 | 11 => {
            if let MVal::Dt(d) = near_scalar(s, &MVal::Dt(a.clone())) {
                b = d;
            }
        }
        1 => b.y = two(s.range(1, 9999)),
        2 => b.mo = two(s.range(1, 12)),
        3 => b.d = two(s.range(1, 28)),
        4 => b.tm = if s.bool() { None } else { date(s).tm },
        n => {
            if let Some(ref mut t) = b.tm {
                match n {
                    5 => t.h = two(s.range(0, 23)),
                    6 => t.m = two(s.range(0, 59)),
                    7 => t.s = two(s.range(0, 59)),
                    8 => t.frac = if s.bool() { None } else { Some(two(s.range(0, 99))) },
                    _ => {
                        t.off = match (s.usize(4), t.off.clone()) {
                            (0, _) => Off::None,
                            (1, _) => Off::Zulu,
                            (2, Off::Amount('+', h, m)) => Off::Amount('-', h, m),
                            (3, Off::Amount(c, h, _)) => Off::Amount(c, h, two(s.range(0, 59))),
                            (_, Off::Amount(c, _, m)) => Off::Amount(c, two(s.range(0, 23)), m),
                            _ => Off::Amount('+', "00".into(), "00".into()),
                        }
                    }
                }
            }
        }
    }
    c.case(&format!("{} {}", a.text(), b.text()));
    c.sample(|| json!([a.text(), b.text()]));
    c.nontrivial = true;
    c.label(if a == b { "equal" } else { "different" });
    let (x, y) = (to_dt(&a), to_dt(&b));
    ensure!((x == y) == (a == b), "{} == {} is {}", a.text(), b.text(), x == y);
    ensure!((Value::DateTime(x) == Value::DateTime(y)) == (a == b), "the values of {} and {} compare as {}", a.text(), b.text(), a != b);
    Ok(())
}

// ------------------------------------------------------------------------------------------------------------ C20

fn string_of(t: &str, st: St) -> (&'static str, Made) {
    match st {
        St::Basic => ("basic_string", calls::basic_string(t)),
        St::MlBasic => ("ml_basic_string", calls::ml_basic_string(t)),
        St::Literal => ("literal_string", calls::literal_string(t)),
        St::MlLiteral => ("ml_literal_string", calls::ml_literal_string(t)),
    }
}

fn string_all(c: &mut Ctx, t: &str) -> Res {
    c.case(t);
    c.sample(|| json!({ "text": short(t) }));
    c.nontrivial = !t.is_empty();
    for st in STS {
        let w = MVal::Str(t.to_string(), st);
        let ok = refparse::str_ok(t, st);
        let (name, got) = string_of(t, st);
        if ok {
            c.label(name);
        }
        made(&format!("{}({:?})", name, t), &got, if ok { Some(&w) } else { None })?;
    }
    // and again the other way round: what was made before has no influence
    for st in STS.iter().rev() {
        let ok = refparse::str_ok(t, *st);
        let (name, got) = string_of(t, *st);
        ensure!(got.is_ok() == ok, "{}({:?}) is {}, now that strings of the same text have been made", name, t, if ok { "refused" } else { "accepted" });
    }
    Ok(())
}

const CHARS: [char; 11] = ['a', '"', '\'', '\\', 'n', 'u', '0', '\n', '\r', '\t', ' '];

fn c20_short(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    string_all(c, &short_text(&CHARS, i))
}

fn c20_strings(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let st = STS[s.usize(4)];
    let nl = s.usize(3);
    s.stretch_only(TEXT, 60);
    let t = str_text(s, st, nl);
    let t = if s.chance(1, 3) { mutate(s, &t) } else { t };
    string_all(c, &t)
}

fn c20_chars(_: &mut Src, i: u64, c: &mut Ctx) -> Res {
    let ch = match sweep_char(i / 4) {
        Some(x) => x,
        None => return Ok(()),
    };
    let t = match i % 4 {
        0 => ch.to_string(),
        1 => format!("x{}y", ch),
        2 => format!("\\{}", ch),
        _ => format!("\\u00{}1", ch),
    };
    string_all(c, &t)
}

/// Escapes of characters by number: four or eight hexadecimal digits, and a few that are not quite.
fn c20_escapes(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let mut t = String::new();
    for _ in 0..1 + s.usize(3) {
        t.push_str("\\");
        t.push(['u', 'U', 'x'][s.weighted(&[5, 5, 1])]);
        let n = [4, 8, 3, 7, 5, 9][s.weighted(&[5, 5, 1, 1, 1, 1])];
        for _ in 0..n {
            t.push("0123456789abcdefABCDEFgG".chars().nth(s.weighted(&[9, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1])).unwrap());
        }
        if s.bool() {
            t.push_str(["", " ", "z", "\\\\"][s.usize(4)]);
        }
    }
    string_all(c, &t)
}

// ------------------------------------------------------------------------------------------------------------ C21

fn c21_display(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let mut cfg = Cfg::valid();
    cfg.nested = 60;
    cfg.mixed = 15;
    let d = s.usize(5);
    let m = Gen::new(s, cfg).mval(d, None);
    let t = m.text("");
    c.case(&t);
    c.sample(|| json!({ "value": m.json() }));
    c.nontrivial = true;
    c.label_if(m.depth() > 0, "nested");
    c.label_if(m.is_mixed(), "mixed");
    let v = to_value(&m);
    ensure!(v.validate(), "validate() rejects {:?}", t);
    let shown = v.to_string();
    ensure!(shown == t, "the value {:?} is displayed as {:?}", t, shown);
    let doc = format!("a = {}", shown);
    let (p, o) = parse(&doc);
    ensure!(o.leftover.is_none(), "the displayed value {:?} is read as {:?}", shown, o);
    ensure!(o.errors.is_empty() || m.is_mixed(), "the displayed value {:?} has errors {:?}", shown, o.errors);
    let back = p.get_value("a");
    ensure!(back.as_ref() == Some(&v), "the displayed value {:?} is read back as {:?}", shown, back);
    ensure!(back.as_ref().map(to_mval) == Some(m), "the displayed value {:?} is read back as {:?}", shown, back);
    Ok(())
}

fn c21_validate(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let m = if s.bool() { odd_value(s, 3) } else { bad_value(s) };
    let ok = writable(&m);
    c.case(&format!("{:?}", m));
    c.sample(|| json!({"value": m.json(), "valid": ok}));
    c.nontrivial = true;
    c.label(if ok { "valid" } else { "invalid" });
    let v = to_value(&m);
    ensure!(v.validate() == ok, "validate() of {:?} is {}", m.text(""), v.validate());
    // and set_value agrees
    let (mut p, _) = parse("a = 1\n");
    ensure!(calls::set_value(&mut p, "a", v) == ok, "set_value of {:?} is {}", m.text(""), !ok);
    Ok(())
}


fn c21_equal(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let mut cfg = Cfg::valid();
    cfg.nested = 50;
    let d = s.usize(4);
    let m = Gen::new(s, cfg).mval(d, None);
    let n = match s.usize(4) {
        0 => m.clone(),
        1 => new_value(s, &m),
        2 => one_change(s, &m),
        _ => match m {
            // the same text as another type
            MVal::Int(ref t) => MVal::Float(t.clone()),
            MVal::Float(ref t) => MVal::Int(t.clone()),
            MVal::Str(ref t, st) => MVal::Str(t.clone(), if st == St::Basic { St::Literal } else { St::Basic }),
            MVal::Bool(b) => MVal::Str(b.to_string(), St::Basic),
            ref o => one_change(s, o),
        },
    };
    c.case(&format!("{:?} {:?}", m, n));
    c.sample(|| json!([m.json(), n.json()]));
    c.nontrivial = true;
    c.label(if m == n { "equal" } else { "different" });
    let (x, y) = (to_value(&m), to_value(&n));
    ensure!((x == y) == (m == n), "{:?} == {:?} is {}", m.text(""), n.text(""), x == y);
    ensure!((y == x) == (m == n), "{:?} == {:?} is {}", n.text(""), m.text(""), y == x);
    ensure!(x == x.clone(), "{:?} is not equal to its clone", m.text(""));
    Ok(())
}

/// The value with one of its scalars another.
fn one_change(s: &mut Src, m: &MVal) -> MVal {
    match *m {
        MVal::Arr(ref v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = s.usize(v.len());
            v[i] = one_change(s, &v[i]);
            MVal::Arr(v)
        }
        MVal::Inl(ref v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = s.usize(v.len());
            v[i].1 = one_change(s, &v[i].1);
            MVal::Inl(v)
        }
        _ => {
            if s.chance(2, 3) {
                near_scalar(s, m)
            } else {
                any_scalar(s, 2)
            }
        }
    }
}

pub fn checks() -> Vec<Check> {
    const P: &[&str] = &["the harness builds /repo with a copy of nom 1.2.4 that only adds a per-thread cache of compiled regular expressions"];
    let part = |name, quick: u64, thorough: u64, f: CaseFn| Part { name, quick: quick * 10, thorough: thorough * 30, exhaustive: false, f };
    let all = |name, quick, thorough, f: CaseFn| Part { name, quick, thorough, exhaustive: true, f };
    vec![
        Check {
            id: "C18",
            rule: "every text of up to 5 (thorough: 6) characters over 12 that numbers are made of and some that look like them; generated and damaged numbers and booleans; 64-bit integers and floats near powers of two and ten and of random bits; non-trivial: the text has a digit, or the number is not one of the recorded finding",
            assumptions: P,
            findings: &[Finding { id: "float-integral", probe: float_finding }],
            parts: vec![
                all("short", upto(12, 5), upto(12, 6), c18_short),
                part("strings", 150_000, 3_000_000, c18_strings),
                part("int", 60_000, 1_000_000, c18_int),
                part("float", 100_000, 2_000_000, c18_float),
            ],
        },
        Check {
            id: "C19",
            rule: "generated date-times, a third of them off by one in a field and a quarter of them with a field that is no number of the right length, through all functions from strings, from integers and by parsing, and the parts by themselves; every day of 16 years; pairs that differ in one field; all are non-trivial",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("strings", 150_000, 3_000_000, c19_strings),
                part("ints", 150_000, 3_000_000, c19_ints),
                part("parse", 150_000, 3_000_000, c19_parse),
                all("calendar", 16 * 14 * 33, 16 * 14 * 33, c19_calendar),
                part("equal", 100_000, 1_000_000, c19_equal),
            ],
        },
        Check {
            id: "C20",
            rule: "every text of up to 5 (thorough: 6) characters over 11 that matter in strings, generated and damaged contents, every character in four places, escapes by number, each as all four kinds of string; non-trivial: not empty",
            assumptions: P,
            findings: &[],
            parts: vec![
                all("short", upto(11, 5), upto(11, 6), c20_short),
                part("strings", 100_000, 2_000_000, c20_strings),
                all("chars", 4 * 0x3800, 4 * 0x80000, c20_chars),
                part("escapes", 60_000, 1_000_000, c20_escapes),
            ],
        },
        Check {
            id: "C21",
            rule: "generated values nested up to 4 deep, displayed and read back; arbitrary values, of which many are invalid somewhere; pairs of values that are equal, differ in one scalar, or are of the same text and another type; all are non-trivial",
            assumptions: P,
            findings: &[],
            parts: vec![
                part("display", 150_000, 3_000_000, c21_display),
                part("validate", 150_000, 3_000_000, c21_validate),
                part("equal", 100_000, 2_000_000, c21_equal),
            ],
        },
    ]
}
