//! The checks of the program tomlkit: each case runs it on files of a scratch directory.
use crate::ast::*;
use crate::checks::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::refparse;
use crate::runner::*;
use crate::tape::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A directory that is removed when the case ends.
struct Scratch(PathBuf);

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("vharness-{}-{}", std::process::id(), n));
        std::fs::create_dir(&d).expect("harness: cannot make a scratch directory");
        Scratch(d)
    }
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        for e in std::fs::read_dir(&self.0).expect("harness: cannot list the scratch directory") {
            let e = e.expect("harness: cannot list the scratch directory");
            let n = e.file_name().to_string_lossy().into_owned();
            out.insert(n, std::fs::read(e.path()).unwrap_or_default());
        }
        out
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn tomlkit() -> PathBuf {
    std::env::var("VERIF_TOMLKIT").map(PathBuf::from).unwrap_or_else(|_| {
        std::env::current_exe().expect("harness: no executable").parent().unwrap().join("tomlkit")
    })
}

static RUNNING: Mutex<BTreeMap<u32, Instant>> = Mutex::new(BTreeMap::new());

/// Ends the programs that do not end by themselves; their cases fail.
pub fn kill_old() {
    for (pid, t) in RUNNING.lock().unwrap().iter() {
        if t.elapsed().as_secs() > 60 {
            let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
        }
    }
}

struct Ran {
    code: Option<i32>,
    out: String,
}

fn run_kit(dir: &Scratch, args: &[String], stdin: &str, log: bool) -> Ran {
    let mut cmd = Command::new(tomlkit());
    if log {
        // messages for debugging go to standard error
        cmd.env("RUST_LOG", "trace");
    } else {
        cmd.env_remove("RUST_LOG");
    }
    let mut ch = cmd
        .args(args)
        .current_dir(&dir.0)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: cannot run tomlkit");
    let pid = ch.id();
    RUNNING.lock().unwrap().insert(pid, Instant::now());
    let _ = ch.stdin.take().unwrap().write_all(stdin.as_bytes());
    let o = ch.wait_with_output();
    RUNNING.lock().unwrap().remove(&pid);
    let o = o.expect("harness: cannot wait for tomlkit");
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned() }
}

/// Whether a text can be a field of a comma separated list of the program.
fn listable(t: &str) -> bool {
    !t.contains(&[',', '\n', '\r', '\0'][..])
}

/// What a command prints, or the texts its error message must contain.
type Said = Result<String, Vec<String>>;

#[derive(Clone)]
struct Opts {
    sep: String,
    abegin: String,
    aend: String,
    asep: String,
    alen: bool,
    strip: bool,
    quiet: bool,
    print: bool,
    trues: Vec<String>,
    falses: Vec<String>,
}

#[derive(Clone, Default)]
struct Cmd {
    get: Option<Vec<String>>,
    has: Option<Vec<String>>,
    kids: Option<Vec<String>>,
    haskids: Option<Vec<String>>,
    set: Option<Vec<String>>,
}

fn find<'a>(x: &'a Expect, k: &str) -> Option<&'a Entry> {
    x.entries.iter().find(|e| e.key == k)
}

fn not_found(k: &str) -> Vec<String> {
    vec![format!("\"{}\"", k)]
}

fn get_said(x: &Expect, keys: &[String], o: &Opts) -> Said {
    let mut out = vec![];
    for k in keys {
        match find(x, k).and_then(|e| e.val.as_ref()) {
            None => return Err(not_found(k)),
            Some(v) => {
                let t = v.text("");
                out.push(if o.strip { t.trim_matches(|c| c == '"' || c == '\'').to_string() } else { t });
            }
        }
    }
    Ok(out.join(&o.sep))
}

/// The texts printed for true or false, one for each key.
fn word(list: &[String], i: usize) -> Option<&String> {
    list.get(if list.len() > 1 { i } else { 0 })
}

fn has_said(keys: &[String], offset: usize, o: &Opts, f: &dyn Fn(&str) -> bool) -> Said {
    let mut out = vec![];
    for (i, k) in keys.iter().enumerate() {
        match (word(&o.trues, i + offset), word(&o.falses, i + offset)) {
            (Some(t), Some(n)) => out.push(if f(k) { t.clone() } else { n.clone() }),
            _ => return Err(vec![]),
        }
    }
    Ok(out.join(&o.sep))
}

fn kids_said(x: &Expect, keys: &[String], o: &Opts) -> Said {
    let mut out = vec![];
    for k in keys {
        match find(x, k).map(|e| &e.kids) {
            None => return Err(not_found(k)),
            Some(&Kids::Count(0)) => return Err(not_found(k)),
            Some(&Kids::Count(n)) => out.push(n.to_string()),
            Some(&Kids::Keys(ref v)) => out.push(if o.alen {
                format!("{}{}{}", v.len(), o.asep, v.join(&o.asep))
            } else {
                format!("{}{}{}", o.abegin, v.join(&o.asep), o.aend)
            }),
        }
    }
    Ok(out.join(&o.sep))
}

/// The value a text and a type make, if they do.
fn typed(val: &str, typ: &str) -> Option<MVal> {
    let string = |t: St| if refparse::str_ok(val, t) { Some(MVal::Str(val.to_string(), t)) } else { None };
    match typ {
        "bs" | "basic-string" => string(St::Basic),
        "mbs" | "ml-basic-string" => string(St::MlBasic),
        "ls" | "literal-string" => string(St::Literal),
        "mls" | "ml-literal-string" => string(St::MlLiteral),
        "int" | "integer" if refparse::int_ok(val) => Some(MVal::Int(val.to_string())),
        "flt" | "float" if refparse::float_ok(val) => Some(MVal::Float(val.to_string())),
        "bool" | "boolean" if val.eq_ignore_ascii_case("true") => Some(MVal::Bool(true)),
        "bool" | "boolean" if val.eq_ignore_ascii_case("false") => Some(MVal::Bool(false)),
        "dt" | "datetime" => refparse::dt_parse(val).filter(|d| d.exists()).map(MVal::Dt),
        _ => None,
    }
}

fn set_said(x: &mut Expect, fields: &[String], o: &Opts) -> Said {
    if fields.len() % 3 != 0 || fields.is_empty() {
        return Err(vec![]);
    }
    let mut out = vec![];
    for f in fields.chunks(3) {
        let err = Err(not_found(&f[0]));
        let v = match typed(&f[1], &f[2]) {
            Some(v) => v,
            None => return err,
        };
        let at = match find(x, &f[0]).and_then(|e| e.at.clone()) {
            Some(at) => at,
            None => return err,
        };
        let mut doc = x.doc.clone();
        if let Kind::KeyVal { ref mut val, .. } = doc.items[at.0].kind {
            val.at(&at.1).set(&v);
        }
        *x = Expect::of_doc(&doc);
        out.push("Success");
    }
    Ok(if o.quiet { String::new() } else { out.join(&o.sep) })
}

/// What the program prints for one document: the results of the commands in order, and whether a set succeeded.
fn said(x: &mut Expect, c: &Cmd, o: &Opts) -> (Vec<Said>, bool) {
    let mut out: Vec<Said> = vec![];
    let ok = |out: &Vec<Said>| out.last().map_or(true, |r| r.is_ok());
    let mut offset = 0;
    if let Some(ref k) = c.get {
        out.push(get_said(x, k, o));
    }
    if let (Some(k), true) = (c.has.as_ref(), ok(&out)) {
        out.push(has_said(k, 0, o, &|k| find(x, k).map_or(false, |e| e.val.is_some())));
        offset = k.len();
    }
    if let (Some(k), true) = (c.kids.as_ref(), ok(&out)) {
        out.push(kids_said(x, k, o));
    }
    if let (Some(k), true) = (c.haskids.as_ref(), ok(&out)) {
        out.push(has_said(k, offset, o, &|k| {
            find(x, k).map_or(false, |e| match e.kids {
                Kids::Count(n) => n > 0,
                Kids::Keys(ref v) => !v.is_empty(),
            })
        }));
    }
    let mut wrote = false;
    if let (Some(f), true) = (c.set.as_ref(), ok(&out)) {
        let r = set_said(x, f, o);
        wrote = r.is_ok();
        out.push(r);
    }
    (out, wrote)
}

/// Takes the expected output off the front of what was printed. An error message is delimited by what is printed after it, or,
/// if that is not known, by the end of its line (no key has a line end).
fn take_said<'a>(mut got: &'a str, file: &str, want: &[Said], sep: &str, next: Option<&str>) -> Result<&'a str, String> {
    for (i, w) in want.iter().enumerate() {
        match *w {
            Ok(ref t) => {
                ensure!(got.starts_with(&t[..]), "printed {:?}, expected {:?}", short(got), t);
                got = &got[t.len()..];
            }
            Err(ref parts) => {
                // always the last one; the message goes up to the end of the output of this document
                let head = format!("Error \"{}\": ", file);
                ensure!(got.starts_with(&head), "printed {:?}, expected an error", short(got));
                let end = match next {
                    Some(next) => {
                        ensure!(got.ends_with(next), "printed {:?}, expected it to end in {:?}", short(got), next);
                        got.len() - next.len()
                    }
                    None => got.find('\n').map_or(got.len(), |i| i + 1),
                };
                ensure!(end >= head.len(), "printed {:?}, expected a message", short(got));
                let msg = &got[head.len()..end];
                ensure!(msg.ends_with('\n') && msg.len() > 1, "printed the error {:?}", msg);
                for p in parts {
                    ensure!(msg.contains(&p[..]), "the error {:?} does not name {}", msg, p);
                }
                return Ok(&got[end..]);
            }
        }
        let t = if i + 1 < want.len() { sep } else { "\n" };
        ensure!(got.starts_with(t), "printed {:?} after result {}, expected {:?}", short(got), i, t);
        got = &got[t.len()..];
    }
    Ok(got)
}

const SEPS: [&str; 16] =
    [", ", ";", " ", "|", "\n", "::", "\t", " and ", "\u{2014}", "a", "b", "1", "\"", "]", "0", "e"];

fn gen_opts(s: &mut Src, args: &mut Vec<String>, keys: usize) -> Opts {
    let mut o = Opts {
        sep: ", ".into(),
        abegin: "[".into(),
        aend: "]".into(),
        asep: ", ".into(),
        alen: false,
        strip: false,
        quiet: false,
        print: false,
        trues: vec!["true".into()],
        falses: vec!["false".into()],
    };
    let mut put = |name: &str, v: &str| {
        args.push(name.to_string());
        args.push(v.to_string());
    };
    if s.chance(1, 4) {
        o.sep = SEPS[s.usize(16)].into();
        put(if s.bool() { "-p" } else { "--separator" }, &o.sep);
    }
    if s.chance(1, 5) {
        o.asep = SEPS[s.usize(16)].into();
        put("--array-separator", &o.asep);
    }
    if s.chance(1, 5) {
        o.abegin = ["(", "<", "{ ", "\"", "[", "a", "1"][s.usize(7)].into();
        put("--array-begin", &o.abegin);
    }
    if s.chance(1, 5) {
        o.aend = [")", ">", " }", "\"", "]", "a", "1"][s.usize(7)].into();
        put("--array-end", &o.aend);
    }
    let words = |s: &mut Src| -> Vec<String> {
        let n = match s.weighted(&[3, 3, 1]) {
            0 => 1,
            1 => keys.max(1),
            _ => 1 + s.usize(keys + 3),
        };
        (0..n).map(|i| format!("{}{}", ["yes", "1", "on", "T!", "no way"][s.usize(5)], i)).collect()
    };
    if s.chance(1, 3) {
        o.trues = words(s);
        put("--set-true", &o.trues.join(","));
    }
    if s.chance(1, 3) {
        o.falses = words(s);
        put("--set-false", &o.falses.join(","));
    }
    if s.chance(1, 6) {
        o.alen = true;
        args.push("--array-length".into());
    }
    if s.chance(1, 4) {
        o.strip = true;
        args.push("--strip-quotes".into());
    }
    o
}

fn pick_keys(s: &mut Src, x: &Expect, valued: bool, bad: u32) -> Vec<String> {
    let n = match s.sized(LENGTH, 60) {
        Some(n) => n,
        None if s.stretch == LENGTH => 6 + s.usize(30),
        None => 1 + s.weighted(&[3, 3, 2, 1, 1]),
    };
    let bad = if n > 8 { 1 } else { bad };
    let all: Vec<&Entry> = x.entries.iter().filter(|e| listable(&e.key) && (!valued || e.val.is_some())).collect();
    let mut out: Vec<String> = vec![];
    for _ in 0..n {
        let k = if all.is_empty() || s.chance(bad, 100) {
            let a: Vec<String> = absent_probes(&x.entries).into_iter().filter(|k| listable(k)).collect();
            if a.is_empty() {
                "absent".to_string()
            } else {
                a[s.usize(a.len())].clone()
            }
        } else {
            all[s.usize(all.len())].key.clone()
        };
        out.push(k);
    }
    // an argument must not look like an option, or be empty
    if out[0].is_empty() || out[0].starts_with('-') {
        out.insert(0, "a".into());
    }
    // the last field of a list is lost when it is empty
    if out.last().unwrap().is_empty() {
        out.push("a".into());
    }
    out
}

fn gen_read(s: &mut Src, x: &Expect, args: &mut Vec<String>, force: bool) -> Cmd {
    let mut c = Cmd::default();
    let mut which = if force { 1 + s.usize(15) } else { s.usize(16) };
    if which.count_ones() > 2 && s.bool() {
        which &= 5;
        if which == 0 && force {
            which = 1;
        }
    }
    let mut put = |a: [&str; 2], s: &mut Src, v: &Vec<String>| {
        args.push(a[s.usize(2)].to_string());
        args.push(v.join(","));
    };
    if which & 1 != 0 {
        let k = pick_keys(s, x, true, 6);
        put(["--get-value", "-g"], s, &k);
        c.get = Some(k);
    }
    if which & 2 != 0 {
        let k = pick_keys(s, x, false, 30);
        put(["--has-value"; 2], s, &k);
        c.has = Some(k);
    }
    if which & 4 != 0 {
        let v: Vec<Entry> = x.entries.iter().filter(|e| e.kids != Kids::Count(0)).cloned().collect();
        let mut y = Expect::of("");
        y.entries = v;
        let k = if s.chance(9, 10) { pick_keys(s, &y, false, 4) } else { pick_keys(s, x, false, 4) };
        put(["--get-children", "-c"], s, &k);
        c.kids = Some(k);
    }
    if which & 8 != 0 {
        let k = pick_keys(s, x, false, 30);
        put(["--has-children"; 2], s, &k);
        c.haskids = Some(k);
    }
    c
}

/// The fields of a list as the program takes them: `a` on its own was put in front where that was needed.
fn doc_text(s: &mut Src) -> String {
    // most documents have the key a, so that lists can begin with it
    let mut t = doc(s, Cfg { items: 8, ..Cfg::valid() }).text();
    if s.chance(1, 60) {
        // long enough for any buffer, with characters of several bytes across its ends
        let n = 1 + s.usize(1200);
        let line = format!("# {}{}\n", "-".repeat(s.usize(40)), ["\u{e9}", "\u{2014}\u{20ac}", "\u{1f600}", "x"][s.usize(4)].repeat(1 + s.usize(30)));
        t = format!("{}{}", line.repeat(n), t);
    }
    if s.chance(1, 2) {
        let u = format!("a = {}\n{}", any_scalar(s, 0).text(""), t);
        let x = Expect::of(&u);
        if x.full() && x.model.errors.is_empty() {
            return u;
        }
    }
    t
}

/// Documents that are much like the first one: the same keys with other values, or a statement more or less.
fn variants(s: &mut Src, t: &str, n: usize) -> Vec<String> {
    let mut out = vec![t.to_string()];
    while out.len() < n {
        let last = out[s.usize(out.len())].clone();
        let x = Expect::of(&last);
        let valued: Vec<&Entry> = x.entries.iter().filter(|e| e.at.is_some()).collect();
        let new = match s.usize(4) {
            0 => format!("{}{}", ["# again\n", "\n", "[zz]\n", "[[yy]]\nk = 1\n"][s.usize(4)], last),
            1 => format!("{}\n[zz-top]\nk = 1", last),
            2 if !valued.is_empty() => {
                let mut d = x.doc.clone();
                let at = valued[s.usize(valued.len())].at.clone().unwrap();
                let v = any_scalar(s, 0);
                if let Kind::KeyVal { ref mut val, .. } = d.items[at.0].kind {
                    val.at(&at.1).set(&v);
                }
                d.text()
            }
            _ => doc_text(s),
        };
        let y = Expect::of(&new);
        out.push(if y.full() && y.model.errors.is_empty() && !y.undefined { new } else { last });
    }
    out
}

fn shown_args(args: &[String]) -> String {
    args.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" ")
}

const NAMES: [&str; 6] = ["doc.toml", "a file.toml", "x", "caf\u{e9}.toml", "doc.toml.bak", "y.txt"];

// ------------------------------------------------------------------------------------------------------------ C24

fn c24_read(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let t = doc_text(s);
    let mut x = Expect::of(&t);
    let name = NAMES[s.usize(6)];
    let mut args = vec![];
    let mut o = {
        let k = s.sized(LENGTH, 60).unwrap_or(if s.stretch == LENGTH { 40 } else { 4 });
        gen_opts(s, &mut args, k)
    };
    let mut cmds = vec![];
    let cmd = gen_read(s, &x, &mut cmds, true);
    if s.chance(1, 6) {
        o.print = true;
        cmds.push("--print-doc".into());
    }
    let n = if s.chance(1, 6) { 2 + s.weighted(&[4, 2, 1, 1]) } else { 1 };
    let stdin = n > 1 || s.chance(1, 8);
    if !stdin {
        args.push(["-i", "--input-file"][s.usize(2)].into());
        args.push(name.into());
    }
    if s.bool() {
        args.extend(cmds);
    } else {
        cmds.extend(args);
        args = cmds;
    }
    let mut texts = variants(s, &t, n);
    let first = NAMES.iter().position(|m| *m == name).unwrap();
    let mut names: Vec<&str> = (0..n).map(|i| NAMES[(first + i) % 6]).collect();
    if n > 1 && s.chance(1, 4) {
        // the same file once more
        let i = 1 + s.usize(n - 1);
        let j = s.usize(i);
        names[i] = names[j];
        texts[i] = texts[j].clone();
    }
    for t in &texts {
        c.case(t);
    }
    c.case(&shown_args(&args));
    c.sample(|| json!({"texts": texts.iter().map(|t| short(t)).collect::<Vec<_>>(), "args": args}));
    let mut wants = vec![said(&mut x, &cmd, &o).0];
    for t in &texts[1..] {
        wants.push(said(&mut Expect::of(t), &cmd, &o).0);
    }
    let want = &wants[0];
    c.nontrivial = want.iter().any(|w| w.is_ok());
    c.label_if(cmd.get.is_some(), "get-value");
    c.label_if(cmd.has.is_some(), "has-value");
    c.label_if(cmd.kids.is_some(), "get-children");
    c.label_if(cmd.haskids.is_some(), "has-children");
    c.label_if(wants.iter().any(|w| w.iter().any(|w| w.is_err())), "error");
    c.label_if(want.len() > 1, "several commands");
    c.label_if(n > 1, "several files");
    let log = s.chance(1, 10);
    c.label_if(log, "with messages for debugging");
    let dir = Scratch::new();
    for (f, t) in names.iter().zip(&texts) {
        std::fs::write(dir.0.join(f), t).expect("harness: cannot write a file");
    }
    let input = if stdin { names.join("\n") + ["\n", ""][s.usize(2)] } else { String::new() };
    let r = run_kit(&dir, &args, &input, log);
    let what = format!("tomlkit {}{}", shown_args(&args), if stdin { format!(" < {:?}", input) } else { String::new() });
    ensure!(r.code == Some(0), "{} ends with {:?}, printing {:?}", what, r.code, short(&r.out));
    let mut rest = &r.out[..];
    for (i, want) in wants.iter().enumerate() {
        let next = if o.print { format!("{}\n", texts[i]) } else { String::new() };
        let later = if i + 1 == n { Some(&next[..]) } else { None };
        rest = take_said(rest, names[i], want, &o.sep, later).map_err(|e| format!("{}: {:?}: {}", what, names[i], e))?;
        ensure!(rest.starts_with(&next), "{}: printed {:?} after the results of {:?}, expected {:?}", what, short(rest), names[i], short(&next));
        rest = &rest[next.len()..];
    }
    ensure!(rest.is_empty(), "{}: printed {:?} in the end", what, short(rest));
    let files = dir.files();
    let distinct = names.iter().collect::<std::collections::BTreeSet<_>>().len();
    ensure!(files.len() == distinct, "{}: there are the files {:?}", what, files.keys().collect::<Vec<_>>());
    for (f, t) in names.iter().zip(&texts) {
        ensure!(files.get(*f).map(|b| &b[..]) == Some(t.as_bytes()), "{} changed the file {:?}", what, f);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------------------ C25

fn spaces(s: &mut Src) -> String {
    ["x", "", " ", "a b", "\u{e9}", "#", "0", "-5", "1e5", "TRUE", "{", "1979-05-27"][s.usize(12)].to_string()
}

/// A value and a type for a field of --set-value.
fn gen_typed(s: &mut Src) -> (String, String) {
    for _ in 0..20 {
        let m = any_scalar(s, 0);
        let (t, n) = match m {
            MVal::Int(ref v) => (v.clone(), ["int", "integer"]),
            MVal::Float(ref v) => (v.clone(), ["flt", "float"]),
            MVal::Bool(b) => ([b.to_string(), b.to_string().to_uppercase()][s.weighted(&[4, 1])].clone(), ["bool", "boolean"]),
            MVal::Dt(ref d) => (d.text(), ["dt", "datetime"]),
            MVal::Str(ref v, St::Basic) => (v.clone(), ["bs", "basic-string"]),
            MVal::Str(ref v, St::MlBasic) => (v.clone(), ["mbs", "ml-basic-string"]),
            MVal::Str(ref v, St::Literal) => (v.clone(), ["ls", "literal-string"]),
            MVal::Str(ref v, St::MlLiteral) => (v.clone(), ["mls", "ml-literal-string"]),
            _ => continue,
        };
        if listable(&t) {
            return (t, n[s.usize(2)].to_string());
        }
    }
    ("1".into(), "int".into())
}

const TYPES: [&str; 22] = [
    "bs", "mbs", "ls", "mls", "int", "flt", "bool", "dt", "basic-string", "ml-basic-string", "literal-string", "ml-literal-string",
    "integer", "float", "boolean", "datetime", "", "string", "INT", "array", "date", " int",
];

fn gen_set(s: &mut Src, x: &Expect, bad: bool) -> Vec<String> {
    let n = match s.sized(LENGTH, 40) {
        Some(n) => n,
        None if s.stretch == LENGTH => 5 + s.usize(20),
        None => 1 + s.weighted(&[4, 3, 2, 1]),
    };
    let valued: Vec<&Entry> = x.entries.iter().filter(|e| e.at.is_some() && listable(&e.key)).collect();
    let mut out = vec![];
    let wrong = if bad { s.usize(n) } else { n };
    for i in 0..n {
        let mut key = if valued.is_empty() { "a".to_string() } else { valued[s.usize(valued.len())].key.clone() };
        if i == 0 && key.starts_with('-') {
            key = "a".into();
        }
        let (mut v, mut t) = gen_typed(s);
        if i == wrong {
            match s.usize(5) {
                0 => t = TYPES[s.usize(22)].into(),
                1 => v = spaces(s),
                2 => {
                    let a: Vec<String> =
                        absent_probes(&x.entries).into_iter().filter(|k| listable(k) && !k.starts_with('-') && !k.is_empty()).collect();
                    key = if a.is_empty() { "absent".into() } else { a[s.usize(a.len())].clone() };
                }
                3 => {
                    let a: Vec<&Entry> = x
                        .entries
                        .iter()
                        .filter(|e| e.at.is_none() && listable(&e.key) && !e.key.starts_with('-') && (i > 0 || !e.key.is_empty()))
                        .collect();
                    if !a.is_empty() {
                        key = a[s.usize(a.len())].key.clone();
                    }
                }
                _ => {
                    t = TYPES[s.usize(16)].into();
                    let b = mutate(s, &v);
                    if listable(&b) {
                        v = b;
                    }
                }
            }
        }
        out.push(key);
        out.push(v);
        out.push(t);
    }
    if bad && s.chance(1, 8) {
        out.pop();
    } else if bad && s.chance(1, 12) {
        out.push("extra".into());
    }
    // an empty last field is lost
    if out.last().unwrap().is_empty() {
        out.push("x".into());
    }
    out
}

/// One call with --set-value on one to three files.
fn set_case(s: &mut Src, c: &mut Ctx, bad: bool) -> Res {
    let many = s.chance(1, 5);
    let n = if many { [1, 2, 3, 6][s.weighted(&[3, 3, 3, 1])] } else { 1 };
    let t = doc_text(s);
    let texts = if s.bool() { variants(s, &t, n) } else { std::iter::once(t).chain((1..n).map(|_| doc_text(s))).collect() };
    let x0 = Expect::of(&texts[0]);
    let mut names: Vec<&str> = NAMES[..n].to_vec();
    let mut texts = texts;
    let mut args = vec![];
    let mut o = {
        let k = s.sized(LENGTH, 60).unwrap_or(if s.stretch == LENGTH { 40 } else { 4 });
        gen_opts(s, &mut args, k)
    };
    let mut cmd = if s.chance(1, 4) { gen_read(s, &x0, &mut args, false) } else { Cmd::default() };
    let fields = gen_set(s, &x0, bad);
    args.push(["-s", "--set-value"][s.usize(2)].into());
    args.push(fields.join(","));
    cmd.set = Some(fields);
    if s.chance(1, 4) {
        o.quiet = true;
        args.push(["-q", "--quiet"][s.usize(2)].into());
    }
    let out_name = if s.chance(1, 3) { Some(["out.toml", "new file"][s.usize(2)]) } else { None };
    if let Some(f) = out_name {
        args.push(["-o", "--output-file"][s.usize(2)].into());
        args.push(f.into());
    }
    o.print = s.chance(1, 4);
    if o.print {
        args.push("--print-doc".into());
    }
    if n > 1 && s.chance(1, 4) {
        // the same file once more, if it can be read then
        let i = 1 + s.usize(n - 1);
        let j = s.usize(i);
        let mut x = Expect::of(&texts[j]);
        said(&mut x, &cmd, &o);
        let y = Expect::of(&x.text);
        if y.full() && y.model.errors.is_empty() && !y.undefined {
            names[i] = names[j];
            texts[i] = texts[j].clone();
            c.label("a file twice");
        }
    }
    if !many {
        args.push(["-i", "--input-file"][s.usize(2)].into());
        args.push(names[0].into());
    }
    for t in &texts {
        c.case(t);
    }
    c.case(&shown_args(&args));
    c.sample(|| json!({"texts": texts.iter().map(|t| short(t)).collect::<Vec<_>>(), "args": args}));
    let log = s.chance(1, 10);
    c.label_if(log, "with messages for debugging");
    let dir = Scratch::new();
    let mut want_files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (f, t) in names.iter().zip(&texts) {
        std::fs::write(dir.0.join(f), t).expect("harness: cannot write a file");
        want_files.insert(f.to_string(), t.clone().into_bytes());
    }
    if let (Some(f), true) = (out_name, s.bool()) {
        // there is an output file already, longer than what will be in it
        let old = format!("{}\n# old\n", "z".repeat(5000));
        std::fs::write(dir.0.join(f), &old).expect("harness: cannot write a file");
        want_files.insert(f.to_string(), old.into_bytes());
    }
    let stdin = if many { names.join("\n") + ["\n", ""][s.usize(2)] } else { String::new() };
    let r = run_kit(&dir, &args, &stdin, log);
    let what = format!("tomlkit {}{}", shown_args(&args), if many { format!(" < {:?}", stdin) } else { String::new() });
    ensure!(r.code == Some(0), "{} ends with {:?}, printing {:?}", what, r.code, short(&r.out));
    // what each document gives; an error message is only delimited by what follows it
    let mut wants = vec![];
    let mut unclear = false;
    for f in &names {
        // as an earlier document with this name left it
        let t = String::from_utf8(want_files[*f].clone()).unwrap();
        let mut x = Expect::of(&t);
        let (want, wrote) = said(&mut x, &cmd, &o);
        if wrote {
            want_files.insert(out_name.unwrap_or(f).to_string(), x.text.clone().into_bytes());
            c.label("set");
        } else {
            c.label("not set");
        }
        if o.print && !wrote {
            // whether the changes before the failing one are shown is not specified
            unclear = true;
        }
        wants.push((f.to_string(), want, if o.print { format!("{}\n", x.text) } else { String::new() }));
    }
    c.nontrivial = true;
    let failed = wants.iter().any(|w| w.1.iter().any(|r| r.is_err()));
    c.label_if(failed, "failing command");
    c.label_if(n > 1, "several files");
    c.label_if(out_name.is_some(), "output file");
    if !failed {
        let mut all = String::new();
        for (_, w, next) in &wants {
            let v: Vec<&str> = w.iter().map(|r| &r.as_ref().unwrap()[..]).collect();
            all += &format!("{}\n{}", v.join(&o.sep), next);
        }
        ensure!(r.out == all, "{}: printed {:?}, expected {:?}", what, short(&r.out), short(&all));
    } else if n == 1 && !unclear {
        let (f, w, next) = &wants[0];
        let rest = take_said(&r.out, f, w, &o.sep, Some(next)).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(rest == next, "{}: printed {:?} in the end, expected {:?}", what, short(rest), short(next));
    } else {
        for (f, w, _) in &wants {
            if w.iter().any(|r| r.is_err()) {
                let head = format!("Error \"{}\": ", f);
                ensure!(r.out.contains(&head), "{}: printed {:?}, expected an error for {:?}", what, short(&r.out), f);
            }
        }
    }
    let files = dir.files();
    for (f, b) in &want_files {
        let got = files.get(f).map(|b| String::from_utf8_lossy(b).into_owned());
        let want = String::from_utf8_lossy(b).into_owned();
        ensure!(
            got.as_ref() == Some(&want),
            "{}: afterwards the file {:?} is {:?}, expected {:?}",
            what,
            f,
            got.map(|g| short(&g)),
            short(&want)
        );
    }
    ensure!(files.len() == want_files.len(), "{}: there are the files {:?}", what, files.keys().collect::<Vec<_>>());
    Ok(())
}

fn c25_set(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    set_case(s, c, false)
}

fn c25_fail(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    set_case(s, c, true)
}

/// A document that is not read in full and without errors, or is not there, or nothing to do, or nowhere to write. There may be
/// other documents: those before it are done as always, those after it are not.
fn c25_refused(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let how = s.weighted(&[6, 1, 1, 1, 1]);
    let t = if how == 0 {
        let m = mode(s, [0, 4, 2, 1, 4]);
        text_of(s, m)
    } else {
        doc_text(s)
    };
    let mut x = Expect::of(&t);
    if x.undefined || (how == 0 && x.result_name() == "Full") {
        return Ok(());
    }
    let n = if s.chance(1, 4) { 2 + s.usize(3) } else { 1 };
    let bad = s.usize(n);
    let good = doc_text(s);
    let mut texts = variants(s, &good, n);
    if how < 3 {
        texts[bad] = t.clone();
        if n > 1 {
            x = Expect::of(&good);
        }
    } else {
        // every document is refused, the first one first
        texts[0] = t.clone();
    }
    let bad = if how < 3 { bad } else { 0 };
    let first = s.usize(6);
    let names: Vec<&str> = (0..n).map(|i| NAMES[(first + i) % 6]).collect();
    let mut args = vec![];
    let mut o = gen_opts(s, &mut args, 3);
    let mut cmd = Cmd::default();
    if how != 3 {
        if how != 4 {
            cmd = gen_read(s, &x, &mut args, false);
        }
        if how == 4 || s.chance(2, 3) || cmd.get.is_some() as u8 + cmd.has.is_some() as u8 + cmd.kids.is_some() as u8 + cmd.haskids.is_some() as u8 == 0 {
            let f = gen_set(s, &x, false);
            args.push("-s".into());
            args.push(f.join(","));
            cmd.set = Some(f);
        }
    }
    o.print = s.chance(1, 3);
    if o.print {
        args.push("--print-doc".into());
    }
    let out = if how == 4 {
        Some([".", "no dir/out.toml", "doc.toml/x", "./"][s.usize(4)])
    } else if s.chance(1, 3) {
        Some("out.toml")
    } else {
        None
    };
    if let Some(f) = out {
        args.push("-o".into());
        args.push(f.into());
    }
    let stdin = n > 1 || s.chance(1, 4);
    if !stdin {
        args.push("-i".into());
        args.push(names[0].into());
    }
    let mut want_files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (i, (f, t)) in names.iter().zip(&texts).enumerate() {
        let mut bytes = t.clone().into_bytes();
        if how == 2 && i == bad {
            let i = s.usize(bytes.len() + 1);
            bytes.insert(i, [0xff, 0xc0, 0x80][s.usize(3)]);
            if std::str::from_utf8(&bytes).is_ok() {
                return Ok(());
            }
        }
        if how != 1 || i != bad {
            want_files.insert(f.to_string(), bytes);
        }
    }
    for t in &texts {
        c.case(t);
    }
    c.case(&shown_args(&args));
    let why = ["document in error", "no such file", "not UTF-8", "no command", "nowhere to write"][how];
    c.sample(|| json!({"texts": texts.iter().map(|t| short(t)).collect::<Vec<_>>(), "args": args, "how": why}));
    c.nontrivial = true;
    c.label(why);
    c.label_if(how == 0, Expect::of(&t).result_name());
    c.label_if(n > 1, "several files");
    let log = s.chance(1, 10);
    c.label_if(log, "with messages for debugging");
    let dir = Scratch::new();
    for (f, b) in &want_files {
        std::fs::write(dir.0.join(f), b).expect("harness: cannot write a file");
    }
    if how == 4 && !said(&mut Expect::of(&texts[0]), &cmd, &o).1 {
        return Ok(());
    }
    for (f, t) in names.iter().zip(&texts).take(bad) {
        let mut x = Expect::of(t);
        if said(&mut x, &cmd, &o).1 {
            want_files.insert(out.unwrap_or(f).to_string(), x.text.clone().into_bytes());
        }
    }
    let name = names[bad];
    let input = if stdin { names.join("\n") + "\n" } else { String::new() };
    let r = run_kit(&dir, &args, &input, log);
    let what = format!("tomlkit {}{}", shown_args(&args), if stdin { format!(" < {:?}", input) } else { String::new() });
    ensure!(r.code.map_or(false, |c| c != 0), "{} ends with {:?}, printing {:?}", what, r.code, short(&r.out));
    // it says so, as an error of this file and not in a panic
    ensure!(r.code != Some(101), "{} panics", what);
    let head = format!("Error \"{}\": ", name);
    ensure!(if bad == 0 { r.out.starts_with(&head) } else { r.out.contains(&head) }, "{} prints {:?}, expected an error for {:?}", what, short(&r.out), name);
    let files = dir.files();
    for (f, b) in &want_files {
        ensure!(
            files.get(f) == Some(b),
            "{}: afterwards the file {:?} is {:?}, expected {:?}",
            what,
            f,
            files.get(f).map(|b| short(&String::from_utf8_lossy(b))),
            short(&String::from_utf8_lossy(b))
        );
    }
    ensure!(files.len() == want_files.len(), "{}: there are the files {:?}", what, files.keys().collect::<Vec<_>>());
    Ok(())
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "keys and values passed in comma separated lists contain no comma, NUL or line ending, and arguments neither start with - nor are empty",
        "the program is built from /repo with a copy of nom 1.2.4 that only adds a per-thread cache of compiled regular expressions",
    ];
    let part = |name, quick: u64, thorough: u64, f: CaseFn| Part { name, quick: quick * 2, thorough: thorough * 2, exhaustive: false, f };
    vec![
        Check {
            id: "C24",
            rule: "tomlkit run on one to five generated valid documents with one to four reading commands, each with up to five keys (some absent), and random output options; non-trivial: at least one command succeeds",
            assumptions: A,
            findings: &[],
            parts: vec![part("read", 12_000, 300_000, c24_read)],
        },
        Check {
            id: "C25",
            rule: "tomlkit --set-value run on one to six generated valid documents with up to four triples, some wrong, with and without an output file and reading commands; documents in error, absent or not UTF-8, output files that cannot be written, and calls without a command, alone or among other documents; non-trivial: the program was run",
            assumptions: A,
            findings: &[],
            parts: vec![part("set", 8_000, 200_000, c25_set), part("fail", 6_000, 150_000, c25_fail), part("refused", 6_000, 150_000, c25_refused)],
        },
    ]
}
