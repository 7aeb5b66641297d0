//! Documents in which something stands very many times: statements, elements, members, lines, characters, levels. The
//! generators of gen.rs make much of everything, but little of it as often as a hundred or a thousand times.
use crate::ast::*;
use crate::gen::*;
use crate::model::*;
use crate::refparse;
use crate::tape::*;

fn pick<'a>(s: &mut Src, v: &[&'a str]) -> &'a str {
    v[s.usize(v.len())]
}

pub fn value_text(s: &mut Src, depth: usize, cfg: Cfg) -> String {
    let mut g = Gen::new(s, cfg);
    let m = g.mval(depth, None);
    let val = g.format(&m);
    let kind = Kind::KeyVal { key: "k".into(), ws1: String::new(), ws2: String::new(), val };
    let item = Item { pre: String::new(), kind, post: String::new(), comment: None, nl: String::new() };
    Doc { items: vec![item] }.text()["k=".len()..].to_string()
}

/// A value in which {n} stands for its number.
fn value(s: &mut Src, cfg: &Cfg) -> String {
    const ONES: [&str; 16] = [
        "{n}", "{n}", "\"s{n}\"", "'{n}'", "{n}.5", "true", "2011-02-03", "[{n}]", "{ a = {n} }", "[{n}, 2]", "\"\"\"{n}\n\"\"\"", "2011-02-03T04:05:06.{n}Z",
        "[ # {n}\n]", "{n}e3", "[[{n}], []]", "{a = [{b = {n}}]}",
    ];
    if s.chance(1, 5) {
        value_text(s, 2, cfg.clone())
    } else {
        pick(s, &ONES).to_string()
    }
}

fn fill(t: &str, i: usize) -> String {
    t.replace("{n}", &i.to_string())
}

/// Texts that mostly are documents, and how often something stands in them.
pub fn grown_text(s: &mut Src, n: usize, cfg: &Cfg) -> String {
    let mut out = String::new();
    if s.chance(1, 2) {
        out += pick(s, &["x = 1\n", "[first]\n", "\n\n", "[[z]]\n[[z]]\ny = 1\n", "a-b = [1, 2]\r\n", "s = \"\"\"\n\n\"\"\"\n"]);
    }
    // one of them is different
    let odd = if s.bool() { s.usize(n) } else { n - 1 - s.usize(n.min(3)) };
    let odd_value = if cfg.valid { value(s, cfg) } else { pick(s, &["2011-02-30", "[1, 'x']", "{a = 1, a = 2}", "1", "[2011-13-01]", "{b = [1, 1.0]}"]).to_string() };
    let has_odd = s.bool();
    let nth = |v: &str, i: usize| if has_odd && i == odd { fill(&odd_value, i) } else { fill(v, i) };
    match s.usize(13) {
        0 | 1 => {
            const HEADS: [&str; 10] = ["[t{n}]", "[t.k{n}]", "[[t]]", "[[t{n}]]", "[[t.k{n}]]", "[a{n}.b.c]", "[a.b{n}.c]", "[[a.b]]", "[ \"t {n}\" ]", "[[a . b{n} ]] # {n}"];
            const KEYS: [&str; 4] = ["k{n}", "\"k {n}\"", "{n}", "key-{n}_"];
            let m = 1 + s.weighted(&[3, 3, 1]);
            let units: Vec<(Option<&str>, Option<(&str, String)>)> = (0..m)
                .map(|_| {
                    let h = if s.chance(1, 2) { Some(pick(s, &HEADS)) } else { None };
                    let k = if h.is_none() || s.bool() { Some((pick(s, &KEYS), value(s, cfg))) } else { None };
                    (h, k)
                })
                .collect();
            let nl = pick(s, &["\n", "\n", "\r\n", " # c\n"]);
            for i in 0..n {
                let u = &units[i % m];
                if let Some(h) = u.0 {
                    out += &format!("{}{}", fill(h, i), nl);
                }
                if let Some((k, ref v)) = u.1 {
                    out += &format!("{} = {}{}", fill(k, i), nth(v, i), nl);
                }
            }
            // mentioned again
            for _ in 0..s.usize(3) {
                let i = s.usize(n);
                out += &match s.usize(4) {
                    0 => format!("k{} = 1\n", i),
                    1 => format!("[t{}.x]\n", i),
                    2 => format!("[t.k{}.x]\n", i),
                    _ => format!("[a.b{}]\n", i),
                };
            }
        }
        2 | 3 => {
            let v = value(s, cfg);
            let w = if s.chance(1, 4) { value(s, cfg) } else { v.clone() };
            let sep = pick(s, &[",", ", ", ",\n", " , # c\n", "\n,\n\n", ",\r\n\t"]);
            out += "a = [";
            for i in 0..n {
                out += &format!("{}{}", nth(if i % 2 == 0 { &v } else { &w }, i), if i + 1 < n { sep } else { "" });
            }
            out += pick(s, &["]\n", ",]\n", "\n]", " #]\n]\n"]);
        }
        4 => {
            let v = value(s, cfg);
            let k = pick(s, &["k{n}", "\"k {n}\"", "{n}"]);
            out += "a = {";
            for i in 0..n {
                out += &format!("{} = {}{}", fill(k, i), nth(&v, i), if i + 1 < n { ", " } else { "" });
            }
            out += "}\n";
        }
        5 => {
            const OPEN: [(&str, &str); 10] = [
                ("[", "]"), ("{b = ", "}"), ("[ #c\n", "]"), ("[[{n}], ", "]"), ("[", ", []]"), ("[", ",\n]"), ("{a = {n}, b = ", "}"), ("{b = ", ", c = {n}}"), ("[{}, {b = ", "}]"),
                ("[{a = [", "]}]"),
            ];
            let m = 1 + s.usize(3);
            let o: Vec<(&str, &str)> = (0..m).map(|_| OPEN[s.usize(10)]).collect();
            let n = n.min(48);
            out += "a = ";
            for i in 0..n {
                out += &fill(o[i % m].0, i);
            }
            out += &nth(&value(s, cfg), odd);
            for i in (0..n).rev() {
                out += &fill(o[i % m].1, i);
            }
        }
        6 => {
            let n = n.min(300);
            let k = pick(s, &["a", "\"a\"", " a ", "k{n}", "\"{n}\" "]);
            let keys: Vec<String> = (0..n).map(|i| fill(k, i)).collect();
            let two = s.bool();
            out += &format!("{}{}{}\nc = {}\n", if two { "[[" } else { "[" }, keys.join("."), if two { "]]" } else { "]" }, nth(&value(s, cfg), odd));
            if s.bool() {
                out += &format!("[{}.{}]\nd = 1\n", keys[..1 + s.usize(n)].join("."), pick(s, &["x", "y", "c"]));
            }
        }
        7 => {
            let q = pick(s, &["\"", "'", "\"\"\"", "'''"]);
            let u = if q.starts_with('"') {
                pick(s, &["x", "\\n", "\\u00e9", "\u{e9}", "\\\\", "a b", "'", "\\\"", "\u{1f600}", "\\U0001f600"])
            } else {
                pick(s, &["x", "\\", "\u{e9}", "\"", "\u{1f600}", "#"])
            };
            let line = q.len() == 3 && s.bool();
            out += &format!("a = {}{}{}\n", q, if line { format!("{}\n", u).repeat(n) } else { u.repeat(n) }, q);
        }
        8 => out += &pick(s, &["\n", "#\n", "# {n}\n", " \t\n", "\r\n", "  # c\r\n"]).repeat(n),
        9 => {
            // comments and newlines within an array or an inline table
            let u = pick(s, &["\n", "#\n", " # c\n", "\r\n", "# [\n"]).repeat(n);
            out += &match s.usize(4) {
                0 => format!("a = [{}1, 2]\n", u),
                1 => format!("a = [1{}, 2]\n", u),
                2 => format!("a = [1, {}2{}]\n", u, pick(s, &["", "\n"])),
                _ => format!("a = {{b = 1, {}c = 2}}\n", u),
            };
        }
        10 => {
            let d = pick(s, &["1", "90", "1_2", "12"]).repeat(n);
            out += &match s.usize(5) {
                0 => format!("a = {}\n", d),
                1 => format!("a = -{}.{}\n", d, d),
                2 => format!("a = 1.5e+{}\n", d),
                3 => format!("a = 1979-05-27T07:32:00.{}-07:00\n", d.replace('_', "")),
                _ => format!("a = [{}, {}]\n", d, d),
            };
        }
        11 => {
            let k = pick(s, &["k", "ab", "-", "_9"]).repeat(n);
            out += &match s.usize(4) {
                0 => format!("{} = 1\n{}x = 2\n", k, k),
                1 => format!("[{}]\nb = 1\n[[a.{}]]\n", k, k),
                2 => format!("\"{} \" = {}\n", k, nth(&value(s, cfg), odd)),
                _ => format!("a = {{ {} = 1, {}x = [1] }}\n", k, k),
            };
        }
        _ => {
            let b = pick(s, &[" ", "\t", " \t"]).repeat(n);
            out += &match s.usize(7) {
                0 => format!("{}a = 1\n", b),
                1 => format!("a{}= 1\n", b),
                2 => format!("a = {}1\n", b),
                3 => format!("a = 1{}# c\n", b),
                4 => format!("[{}a{}.b]{}\n", b, b, b),
                5 => format!("a = [1{},{}2 ]\n", b, b),
                _ => format!("{}[[a.{}b]]\n", b, b),
            };
        }
    }
    if !out.ends_with('\n') {
        out += "\n";
    }
    // whatever went wrong may show in what comes afterwards
    if !cfg.valid && s.chance(2, 3) {
        for _ in 0..1 + s.usize(2) {
            out += pick(s, &["x = 1\nx = 2\n", "d = 2011-02-30\n", "m = [1, [2], 'x']\n", "[first]\n[first]\ny = 1\n", "[[w]]\n[[w]]\n[w]\nv = 1\n", "i = {a = 1, a = 2}\n"]);
        }
    } else if s.bool() {
        out += pick(s, &["after = 1\n", "[after]\nk = [1, 2]\n", "[[after]]\n[[after]]\nk = 'v'\n", "\n# end"]);
    }
    out
}

/// Such a document.
pub fn grown(s: &mut Src, cfg: &Cfg) -> Option<Doc> {
    let (n, most) = match s.size {
        Some(n) if n > 4 && n < 9000 => (n + [0, 1, 2, 9][s.usize(4)], 90_000),
        _ => {
            let e = 1 + s.usize(10);
            ((1 << e) + s.usize(1 << e), 24_000)
        }
    };
    let mut cfg = cfg.clone();
    cfg.items = 4;
    cfg.depth = cfg.depth.min(2);
    let t = grown_text(s, n, &cfg);
    if t.len() > most {
        return None;
    }
    let p = refparse::parse(&t);
    if p.end < t.len() || p.undefined {
        return None;
    }
    let errors = Model::build(&p.doc).errors;
    let fits = |e: &MErr| !cfg.valid && (cfg.inner_dup > 0 || e.name() != "DuplicateKey");
    if errors.iter().all(fits) {
        Some(p.doc)
    } else {
        None
    }
}
