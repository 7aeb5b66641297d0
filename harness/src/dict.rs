//! A dictionary for the generators, as fuzzers have one: the numbers, characters and texts that stand in the sources of
//! /repo. Code that treats a certain length, count or word in a special way names it. What is not in the committed list of
//! the literals known so far is drawn more often, so that a change is looked at closely. The dictionary only has a say in
//! which inputs are generated, never in what is expected of them.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub words: Vec<String>,
    pub new_ints: Vec<usize>,
    pub new_words: Vec<String>,
}

const KNOWN: &str = include_str!("../dict-known.txt");

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let dir = std::env::var("VERIF_SOURCES").unwrap_or_else(|_| "/repo/src".into());
        let found = literals(Path::new(&dir));
        let mut known: BTreeMap<String, usize> = BTreeMap::new();
        for l in KNOWN.lines() {
            if let Some((n, t)) = l.split_once(' ') {
                known.insert(t.to_string(), n.parse().unwrap_or(0));
            }
        }
        let mut d = Dict::default();
        for (t, n) in &found {
            let new = *n > known.get(t).cloned().unwrap_or(0);
            if let Ok(i) = t.parse::<usize>() {
                if i <= 1_000_000 {
                    d.ints.push(i);
                    if new {
                        d.new_ints.push(i);
                    }
                }
            } else if let Ok(w) = serde_json::from_str::<String>(t) {
                if !w.is_empty() && w.chars().count() <= 40 {
                    d.words.push(w.clone());
                    if new {
                        d.new_words.push(w);
                    }
                }
            }
        }
        d
    })
}

/// The list to be committed: how often each literal occurs.
pub fn listing() -> String {
    let dir = std::env::var("VERIF_SOURCES").unwrap_or_else(|_| "/repo/src".into());
    literals(Path::new(&dir)).into_iter().map(|(t, n)| format!("{} {}\n", n, t)).collect()
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut all: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    all.sort();
    for p in all {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

/// The literals of the sources, texts as JSON strings, and how often each occurs.
fn literals(dir: &Path) -> BTreeMap<String, usize> {
    let mut all = vec![];
    files(dir, &mut all);
    let mut out = BTreeMap::new();
    for f in all {
        if let Ok(t) = std::fs::read_to_string(&f) {
            let t = match t.find("#[cfg(test)]") {
                Some(i) => &t[..i],
                None => &t[..],
            };
            // what is only logged does not matter
            let t: String = t.lines().filter(|l| !l.contains("debug!(")).map(|l| format!("{}\n", l)).collect();
            scan(&t, &mut out);
        }
    }
    out
}

fn scan(t: &str, out: &mut BTreeMap<String, usize>) {
    let c: Vec<char> = t.chars().collect();
    let mut add = |s: String| *out.entry(s).or_insert(0) += 1;
    let word = |w: &str| serde_json::to_string(w).unwrap();
    let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' || (x == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && at(i + 2) == '"'))) {
            let raw = x == 'r';
            let hashes = if raw && at(i + 1) == '#' { 1 } else { 0 };
            i += if raw { 2 + hashes } else { 1 };
            let mut w = String::new();
            while i < c.len() {
                if c[i] == '"' && (hashes == 0 || at(i + 1) == '#') {
                    i += 1 + hashes;
                    break;
                }
                if !raw && c[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => w.push('\n'),
                        'r' => w.push('\r'),
                        't' => w.push('\t'),
                        '0' => w.push('\0'),
                        '\n' => {
                            while at(i + 1).is_whitespace() && at(i + 1) != '\0' {
                                i += 1;
                            }
                        }
                        o => w.push(o),
                    }
                    i += 1;
                    continue;
                }
                w.push(c[i]);
                i += 1;
            }
            // the numbers in a text, of a regular expression, say
            let mut n = String::new();
            for d in w.chars().chain(Some(' ')) {
                if d.is_ascii_digit() {
                    n.push(d);
                } else {
                    if !n.is_empty() && n.len() < 7 {
                        add(n.parse::<usize>().unwrap().to_string());
                    }
                    n.clear();
                }
            }
            add(word(&w));
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                let mut j = i + 2;
                while j < c.len() && (c[j] != '\'' || j == i + 2) && j < i + 14 {
                    j += 1;
                }
                let body: String = c[i + 2..j.min(c.len())].iter().collect();
                let ch = match &body[..] {
                    "n" => Some('\n'),
                    "r" => Some('\r'),
                    "t" => Some('\t'),
                    "0" => Some('\0'),
                    "\\" => Some('\\'),
                    "'" => Some('\''),
                    "\"" => Some('"'),
                    b if b.starts_with("u{") => u32::from_str_radix(b.trim_start_matches("u{").trim_end_matches('}'), 16).ok().and_then(char::from_u32),
                    b if b.starts_with('x') => u32::from_str_radix(&b[1..], 16).ok().and_then(char::from_u32),
                    _ => None,
                };
                if let Some(ch) = ch {
                    add(word(&ch.to_string()));
                }
                i = j + 1;
            } else if at(i + 2) == '\'' {
                add(word(&at(i + 1).to_string()));
                i += 3;
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let mut n = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                n.push(c[i]);
                i += 1;
            }
            let n = n.replace('_', "");
            let v = if let Some(h) = n.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                usize::from_str_radix(&h, 16).ok()
            } else {
                let d: String = n.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse::<usize>().ok()
            };
            if let Some(v) = v {
                add(v.to_string());
                if v > 0x1f && v < 0x110000 && n.starts_with("0x") {
                    if let Some(ch) = char::from_u32(v as u32) {
                        add(word(&ch.to_string()));
                    }
                }
            }
        } else if x.is_alphabetic() || x == '_' {
            // a name, with the digits in it
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
                if i < c.len() && c[i] == '"' && i > 0 && c[i - 1] == 'r' && !c[i.saturating_sub(2)].is_alphanumeric() {
                    break;
                }
            }
        } else {
            i += 1;
        }
    }
}
