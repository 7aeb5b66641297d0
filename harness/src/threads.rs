//! Parsers in several threads (C28).
use crate::ast::*;
use crate::checks::*;
use crate::edits::*;
use crate::extra::made_of;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::runner::*;
use crate::tape::*;
use serde_json::json;
use std::sync::atomic::{AtomicUsize, Ordering};
use tomllib::TOMLParser;

/// What one thread does with one parser.
struct Job {
    texts: Vec<String>,
    keys: Vec<Vec<String>>,
    edits: Vec<Vec<(String, MVal)>>,
    number: Option<usize>,
}

/// Gives way to the other threads at some of the calls, not the same ones each time.
struct Turns(Option<Rng>);

impl Turns {
    fn next(&mut self) {
        if let Some(ref mut r) = self.0 {
            match r.below(8) {
                0 => std::thread::yield_now(),
                1 => (0..r.below(300)).for_each(|_| std::hint::spin_loop()),
                _ => (),
            }
        }
    }
}

/// Does it, and tells all that was seen.
fn play(j: &Job, t: &mut Turns) -> Vec<String> {
    let mut out = vec![];
    let mut p = TOMLParser::new();
    for (i, text) in j.texts.iter().enumerate() {
        t.next();
        let (q, r) = p.parse(text);
        p = q;
        let o = outcome(&r);
        out.push(format!("parse: {} {:?} {:?} {:?}", o.name, o.leftover, o.line, o.col));
        for e in &o.errors {
            out.push(match e.kind {
                OErr::Table(ref m) => {
                    let m: std::collections::BTreeMap<_, _> = m.iter().collect();
                    format!("error: {:?} {:?} {} {}", m, e.key, e.line, e.col)
                }
                _ => format!("error: {:?}", e),
            });
        }
        look(&p, &j.keys[i], t, &mut out);
        for (k, v) in &j.edits[i] {
            t.next();
            let v = to_value(v);
            out.push(format!("value {} {}", v, v.validate()));
            let done = calls::set_value(&mut p, k, v);
            out.push(format!("set_value({:?}, ..): {}", k, done));
        }
        if !j.edits[i].is_empty() {
            look(&p, &j.keys[i], t, &mut out);
        }
    }
    if let Some(n) = j.number {
        for v in made_of(n) {
            t.next();
            out.push(match v {
                Ok(v) => format!("value {:?} {} {}", to_mval(&v), v, v.validate()),
                Err(e) => format!("error {}", e),
            });
        }
    }
    out
}

fn look(p: &TOMLParser, keys: &[String], t: &mut Turns, out: &mut Vec<String>) {
    for k in keys {
        t.next();
        let v = calls::get_value(p, k);
        out.push(format!("get_value({:?}): {:?}", k, v.as_ref().map(to_mval)));
        let c = calls::get_children(p, k);
        out.push(format!("get_children({:?}): {:?} {:?}", k, c.map(kids), c.map(|c| calls::combine_child_keys(c, k))));
    }
    out.push(format!("displayed: {:?}", p.to_string()));
}

fn job(s: &mut Src, text: Option<String>, c: &mut Ctx) -> Job {
    let n = 1 + s.weighted(&[5, 1]);
    let mut j = Job { texts: vec![], keys: vec![], edits: vec![], number: None };
    for i in 0..n {
        let t = match text {
            Some(ref t) if i == 0 => t.clone(),
            _ => {
                let m = mode(s, [5, 4, 2, 1, 2]);
                text_of(s, m)
            }
        };
        c.case(&t);
        let x = Expect::of(&t);
        let mut keys: Vec<String> = x.entries.iter().map(|e| e.key.clone()).take(40).collect();
        keys.insert(0, String::new());
        let mut edits = vec![];
        for _ in 0..s.usize(4) {
            let mut key = odd_key(s, &x.entries);
            let mut v = odd_value(s, 2);
            if s.chance(3, 4) && !x.entries.is_empty() {
                let e = &x.entries[s.usize(x.entries.len())];
                if let Some(ref old) = e.val {
                    key = e.key.clone();
                    v = new_value(s, old);
                }
            }
            if keys.len() < 50 {
                keys.push(key.clone());
            }
            edits.push((key, v));
        }
        c.label_if(!edits.is_empty(), "edits");
        j.texts.push(t);
        j.keys.push(keys);
        j.edits.push(edits);
    }
    if s.chance(1, 3) {
        j.number = Some(s.usize(100_000));
        c.label("values built");
    }
    j
}

/// The jobs one after another in this thread, and then all at once in threads of their own, a few times.
fn c28_threads(s: &mut Src, _: u64, c: &mut Ctx) -> Res {
    let n = 2 + s.weighted(&[3, 3, 2]);
    // often the threads have the same text
    let same = s.bool();
    let first = job(s, None, c);
    let text = first.texts[0].clone();
    let mut jobs = vec![first];
    for _ in 1..n {
        jobs.push(job(s, if same { Some(text.clone()) } else { None }, c));
    }
    c.label(if same { "one text" } else { "different texts" });
    c.sample(|| json!({"threads": jobs.iter().map(|j| j.texts.iter().map(|t| short(t)).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    c.nontrivial = jobs.iter().filter(|j| j.texts[0].len() > 3).count() > 1;
    let alone: Vec<Vec<String>> = jobs.iter().map(|j| play(j, &mut Turns(None))).collect();
    let seed = s.below(1 << 30) as u64;
    let rounds = if s.replays() { 40 } else { 3 };
    let ready = AtomicUsize::new(0);
    let failures: Vec<Option<String>> = std::thread::scope(|sc| {
        let hands: Vec<_> = jobs
            .iter()
            .zip(&alone)
            .enumerate()
            .map(|(i, (j, want))| {
                let ready = &ready;
                let work = move || {
                    let mut t = Turns(Some(Rng::new(mix(seed + i as u64))));
                    for r in 0..rounds {
                        // all begin together, unless one of them has failed
                        ready.fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0;
                        while ready.load(Ordering::SeqCst) < n * (r + 1) && spins < 20_000 {
                            spins += 1;
                            if spins % 64 == 0 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                        let got = play(j, &mut t);
                        if got != *want {
                            let k = (0..got.len().max(want.len())).find(|&k| got.get(k) != want.get(k)).unwrap();
                            return Some(format!("with other threads at work, thread {} sees {:?}, and {:?} without", i, got.get(k), want.get(k)));
                        }
                    }
                    None
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, work).expect("harness: no thread")
            })
            .collect();
        hands
            .into_iter()
            .enumerate()
            .map(|(i, h)| match h.join() {
                Ok(r) => r,
                Err(e) => {
                    let what = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
                    Some(format!("thread {} panics: {}", i, what.unwrap_or_default()))
                }
            })
            .collect()
    });
    match failures.into_iter().flatten().next() {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "the threads are scheduled by the operating system, up to 32 of them on the processors there are; calls are made at random distances",
        "the harness builds /repo with a copy of nom 1.2.4 that only adds a per-thread cache of compiled regular expressions",
    ];
    vec![Check {
        id: "C28",
        rule: "two to four threads, each with one or two texts (the same ones or different ones; valid, with errors, damaged) that it parses, reads, edits and displays, and values that it builds, first alone and then three times with the others; non-trivial: more than 3 bytes of text in two threads at least",
        assumptions: A,
        findings: &[],
        parts: vec![Part { name: "threads", quick: 24_000, thorough: 600_000, exhaustive: false, f: c28_threads }],
    }]
}
