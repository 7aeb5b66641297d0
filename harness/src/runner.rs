//! Runs the parts of a check over generated cases, shrinks a failure, writes the evidence and the replay file.
use crate::tape::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub nontrivial: bool,
    /// Identifies the case among the others.
    pub print: u64,
    pub labels: Vec<&'static str>,
    pub sample: Option<J>,
    /// Known findings the case ran into, by id.
    pub known: Vec<&'static str>,
    pub want_sample: bool,
    pub listed: &'static [String],
    pub thorough: bool,
}

impl Ctx {
    pub fn case(&mut self, text: &str) {
        self.print = mix(self.print ^ hash_str(text));
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn sample<F: FnOnce() -> J>(&mut self, f: F) {
        if self.want_sample || slow_limit().is_some() {
            self.sample = Some(f());
        }
    }
    /// Whether a failure with this signature is a recorded finding.
    pub fn is_known(&mut self, id: &'static str) -> bool {
        if self.listed.iter().any(|x| x == id) {
            self.known.push(id);
            true
        } else {
            false
        }
    }
}

pub type CaseFn = fn(&mut Src, u64, &mut Ctx) -> Result<(), String>;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// The cases are the numbers below the count, not random tapes.
    pub exhaustive: bool,
    pub f: CaseFn,
}

/// A defect that is recorded and not repaired: the probe says what fails, if it still does.
pub struct Finding {
    pub id: &'static str,
    pub probe: fn() -> Option<String>,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub findings: &'static [Finding],
    pub parts: Vec<Part>,
}

struct Fail {
    index: u64,
    tape: Vec<u32>,
    msg: String,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

enum Outcome1 {
    Ok,
    Fail(String),
}

fn run_one(part: &Part, src: &mut Src, idx: u64, ctx: &mut Ctx) -> Outcome1 {
    let begun = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if !part.exhaustive {
            src.focus();
        }
        (part.f)(src, idx, ctx)
    }));
    if let Some(&limit) = slow_limit().as_ref() {
        let took = begun.elapsed().as_secs_f64();
        if took > limit {
            println!("SLOW {:.2} s part {} {}", took, part.name, ctx.sample.as_ref().map_or(String::new(), |s| s.to_string()));
        }
    }
    match r {
        Ok(Ok(())) => Outcome1::Ok,
        Ok(Err(m)) => Outcome1::Fail(m),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("harness:") || m.contains("src/gen.rs") || m.contains("src/refparse.rs") {
                println!("HARNESS-ERROR {}", m);
                std::process::exit(2);
            }
            Outcome1::Fail(format!("panic: {}", m))
        }
    }
}

/// VERIF_SLOW: cases that take longer than so many seconds are printed.
fn slow_limit() -> &'static Option<f64> {
    static L: OnceLock<Option<f64>> = OnceLock::new();
    L.get_or_init(|| std::env::var("VERIF_SLOW").ok().and_then(|v| v.parse().ok()))
}

fn new_ctx(listed: &'static [String], want_sample: bool, thorough: bool) -> Ctx {
    Ctx { nontrivial: false, print: 0, labels: vec![], sample: None, known: vec![], want_sample, listed, thorough }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    prints: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, J)>,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

fn case_seed(seed: u64, id: &str, part: &Part, i: u64) -> u64 {
    mix(seed ^ mix(hash_str(id) ^ hash_str(part.name)) ^ mix(i.wrapping_mul(0x1234567) + 1))
}

fn case_src(seed: u64, id: &str, part: &Part, i: u64) -> Src {
    if part.exhaustive {
        Src::replay(&[])
    } else {
        Src::random(case_seed(seed, id, part, i))
    }
}

/// How a case is made again: the choices it begins with, and the seed of those that follow.
#[derive(Clone, Default)]
struct Spec {
    part: &'static str,
    index: u64,
    input: Vec<u32>,
    tail: u64,
}

impl Spec {
    fn json(&self, id: &str, what: &str) -> J {
        json!({"property": id, "part": self.part, "index": self.index, "input": self.input, "tail": self.tail, "failure": what})
    }
}

/// What a worker is doing: since when, and which case.
struct Slot {
    beat: AtomicU64,
    spec: Mutex<Spec>,
}

/// What the workers are doing, in a file that outlives the process: if a case ends it, the parent can tell which. A record is
/// a flag, the part, the index, the tail, and the choices with their number.
struct Record(*mut u32);

unsafe impl Send for Record {}
unsafe impl Sync for Record {}

const RECORD: usize = LONGEST + 16;

extern "C" {
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
}

fn running_path(verif: &str, id: &str) -> String {
    format!("{}/replays/{}.running", verif, id)
}

impl Record {
    fn new(verif: &str, id: &str) -> Record {
        let _ = std::fs::create_dir_all(format!("{}/replays", verif));
        let path = running_path(verif, id);
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("harness: no record");
        let len = threads() * RECORD * 4;
        f.set_len(len as u64).expect("harness: no record");
        use std::os::fd::AsRawFd;
        // read and write, shared
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "harness: no record");
        Record(p as *mut u32)
    }
    fn set(&self, worker: usize, part: usize, s: &Spec) {
        let n = s.input.len().min(LONGEST);
        unsafe {
            let p = self.0.add(worker * RECORD);
            p.write_volatile(0);
            for (i, &x) in [part as u32, s.index as u32, (s.index >> 32) as u32, s.tail as u32, (s.tail >> 32) as u32, n as u32].iter().enumerate() {
                p.add(1 + i).write_volatile(x);
            }
            std::ptr::copy_nonoverlapping(s.input.as_ptr(), p.add(7), n);
            p.write_volatile(1);
        }
    }
    fn clear(&self, worker: usize) {
        unsafe { self.0.add(worker * RECORD).write_volatile(0) };
    }
}

/// The cases that were running when the process ended.
fn last_cases(check: &Check, verif: &str) -> Vec<Spec> {
    let path = running_path(verif, check.id);
    let b = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_ne_bytes([c[0], c[1], c[2], c[3]])).collect();
    w.chunks_exact(RECORD)
        .filter(|r| r[0] == 1 && (r[1] as usize) < check.parts.len() && r[6] as usize <= LONGEST)
        .map(|r| Spec {
            part: check.parts[r[1] as usize].name,
            index: r[2] as u64 | (r[3] as u64) << 32,
            tail: r[4] as u64 | (r[5] as u64) << 32,
            input: r[7..7 + r[6] as usize].to_vec(),
        })
        .collect()
}

/// The coverage-guided search of a part is made of this many, each with a corpus of its own; the result does not depend on
/// the number of threads.
const ISLANDS: u64 = 8;
const CORPUS: usize = 3000;
const LONGEST: usize = 20_000;

struct Island {
    seen: crate::cov::Seen,
    counter: crate::cov::Counter,
    corpus: Vec<(Vec<u32>, Vec<u32>)>,
    rng: Rng,
}

impl Island {
    fn new(seed: u64) -> Island {
        let counter = crate::cov::Counter::new();
        Island { seen: crate::cov::Seen::new(&counter), counter, corpus: vec![], rng: Rng::new(seed) }
    }
    /// The choices the next case begins with.
    fn next(&mut self) -> Vec<u32> {
        let r = &mut self.rng;
        let n = self.corpus.len();
        if n == 0 || r.below(5) == 0 {
            return vec![];
        }
        let corpus = &self.corpus;
        // of three, mostly the shortest: long cases find more, but cost more still
        let pick = |r: &mut Rng| {
            let one = |r: &mut Rng| if r.below(3) == 0 { n - 1 - r.below(n.min(32)) } else { r.below(n) };
            let a = one(r);
            if r.below(8) == 0 {
                return a;
            }
            let (b, c) = (one(r), one(r));
            [a, b, c].into_iter().min_by_key(|&i| corpus[i].0.len()).unwrap()
        };
        let (mut t, mut lim) = corpus[pick(r)].clone();
        for _ in 0..1 + r.below(4) {
            if t.is_empty() {
                break;
            }
            let i = r.below(t.len());
            match r.below(10) {
                0..=3 => t[i] = r.below(lim[i].max(1) as usize) as u32,
                4 => t[i] = [0, lim[i].saturating_sub(1), t[i].saturating_sub(1), t[i] + 1][r.below(4)],
                5 => {
                    let j = (i + 1 + r.below(16)).min(t.len());
                    t.drain(i..j);
                    lim.drain(i..j);
                }
                6 => {
                    let j = (i + 1 + r.below(40)).min(t.len());
                    let (a, b) = (t[i..j].to_vec(), lim[i..j].to_vec());
                    t.splice(i..i, a);
                    lim.splice(i..i, b);
                }
                7 | 8 => {
                    let o = &corpus[pick(r)];
                    if !o.0.is_empty() {
                        let k = r.below(o.0.len());
                        let l = (k + 1 + r.below(60)).min(o.0.len());
                        let j = (i + r.below(60)).min(t.len());
                        t.splice(i..j, o.0[k..l].iter().cloned());
                        lim.splice(i..j, o.1[k..l].iter().cloned());
                    }
                }
                _ => {
                    t.truncate(i);
                    lim.truncate(i);
                }
            }
        }
        t.truncate(LONGEST);
        t
    }
    fn keep(&mut self, src: &mut Src) {
        if !src.heavy && self.seen.add(&self.counter) > 0 && src.rec.len() <= LONGEST {
            let e = (std::mem::take(&mut src.rec), std::mem::take(&mut src.lim));
            if self.corpus.len() < CORPUS {
                self.corpus.push(e);
            } else {
                let i = self.rng.below(CORPUS);
                self.corpus[i] = e;
            }
        }
    }
}

/// The cases of the program tomlkit run in a process of their own, which counts nothing, and so do threads.
fn guidable(check: &Check) -> bool {
    !["C24", "C25", "C28"].contains(&check.id)
}

/// The number of cases; VERIF_PERCENT makes it smaller, for trials of the machinery itself.
fn count(part: &Part, thorough: bool) -> u64 {
    static PERCENT: OnceLock<u64> = OnceLock::new();
    let p = *PERCENT.get_or_init(|| std::env::var("VERIF_PERCENT").ok().and_then(|s| s.parse().ok()).unwrap_or(100));
    (if thorough { part.thorough } else { part.quick }) * p / 100
}

fn guided_count(part: &Part, thorough: bool) -> u64 {
    count(part, thorough) / if thorough { 2 } else { 3 } / ISLANDS
}

fn note(my: &mut Stats, ctx: Ctx, i: u64) {
    my.evaluations += 1;
    if ctx.nontrivial {
        my.nontrivial += 1;
        my.prints.insert(ctx.print);
    }
    for l in ctx.labels {
        *my.labels.entry(l).or_insert(0) += 1;
    }
    for l in ctx.known {
        *my.known.entry(l).or_insert(0) += 1;
    }
    if let Some(s) = ctx.sample {
        my.samples.push((i, s));
    }
}

fn merge(s: &mut Stats, my: Stats) {
    s.evaluations += my.evaluations;
    s.nontrivial += my.nontrivial;
    s.prints.extend(my.prints);
    for (k, v) in my.labels {
        *s.labels.entry(k).or_insert(0) += v;
    }
    for (k, v) in my.known {
        *s.known.entry(k).or_insert(0) += v;
    }
    s.samples.extend(my.samples);
}

/// One island of the search; returns the features, the places and the size of the corpus.
fn run_island(
    check: &Check,
    part: &Part,
    k: u64,
    n: u64,
    seed: u64,
    thorough: bool,
    listed: &'static [String],
    before: &mut dyn FnMut(&Spec) -> bool,
    my: &mut Stats,
) -> (Option<Fail>, [u64; 3]) {
    let base = mix(case_seed(seed, check.id, part, k) ^ 0x5ca1ab1e);
    let mut is = Island::new(base);
    let mut fail = None;
    for i in 0..n {
        let spec = Spec { part: part.name, index: i, input: is.next(), tail: mix(base ^ mix(i + 1)) };
        if !before(&spec) {
            break;
        }
        let mut src = Src::guided(spec.input, spec.tail);
        let mut ctx = new_ctx(listed, k == 0 && i + 2 > n, thorough);
        is.counter.start();
        let r = run_one(part, &mut src, i, &mut ctx);
        is.counter.stop();
        note(my, ctx, i);
        if let Outcome1::Fail(msg) = r {
            fail = Some(Fail { index: i, tape: src.rec, msg });
            break;
        }
        is.keep(&mut src);
    }
    (fail, [is.seen.features, is.seen.places, is.corpus.len() as u64])
}

/// Set while a failure is being shrunk: what to say if that does not end.
static SHRINKING: Mutex<Option<(u64, String)>> = Mutex::new(None);

fn pending_path(verif: &str, id: &str) -> String {
    format!("{}/replays/{}.pending", verif, id)
}

/// The process was ended while it was shrinking a failure: the violation it had found.
pub fn pending(verif: &str, id: &str) -> bool {
    let p = pending_path(verif, id);
    match std::fs::read_to_string(&p) {
        Ok(t) => {
            print!("{}", t);
            let _ = std::fs::remove_file(&p);
            true
        }
        Err(_) => false,
    }
}

fn short_evidence(check: &Check, tier: &str, seed: u64, verif: &str, what: J) {
    let ev = json!({
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": check.rule, "samples": [what]},
        "wall_s": 0.0, "violations": 1,
    });
    let dir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, check.id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
}

const STALL: u64 = 90;
const STALL_ALONE: u64 = 120;

/// A case has not come back: run it alone to see whether it ever does.
fn stalled(check: &Check, spec: &Spec, still: &dyn Fn() -> bool, tier: &str, seed: u64, verif: &str) -> ! {
    let what = format!("the case does not come back within {} seconds", STALL_ALONE);
    let path = replay_path(verif, check.id, spec.part);
    let doc = spec.json(check.id, &what);
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("harness: cannot write the replay file");
    let mut ch = std::process::Command::new(std::env::current_exe().expect("harness: no executable"))
        .args(["replay", &path])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("harness: cannot run itself");
    let start = Instant::now();
    while start.elapsed().as_secs() < STALL_ALONE {
        std::thread::sleep(Duration::from_millis(200));
        if let Ok(Some(_)) = ch.try_wait() {
            // threads need not block each other every time
            if check.id == "C28" && still() {
                continue;
            }
            println!("CHECK-ERROR a case has been running for more than {} seconds, but comes back when it runs alone", STALL);
            std::process::exit(2);
        }
    }
    let _ = ch.kill();
    short_evidence(check, tier, seed, verif, doc);
    println!("part {}: {}", spec.part, what);
    println!("VIOLATION property={} replay={}", check.id, path);
    std::process::exit(1);
}

pub fn run(check: &'static Check, tier: &'static str, seed: u64, known: &'static [(String, String, String)], verif: &'static str) -> i32 {
    let thorough = tier == "thorough";
    let start = Instant::now();
    let listed: &'static [String] =
        Box::leak(known.iter().filter(|k| k.0 == check.id).map(|k| k.1.clone()).collect::<Vec<_>>().into_boxed_slice());
    let _ = std::fs::remove_file(pending_path(verif, check.id));
    let slots: &'static Vec<Slot> = Box::leak(Box::new(
        (0..threads()).map(|_| Slot { beat: AtomicU64::new(0), spec: Mutex::new(Spec::default()) }).collect(),
    ));
    let clock = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(5));
        let now = clock.elapsed().as_secs();
        crate::cli::kill_old();
        for s in slots.iter() {
            let t = s.beat.load(Ordering::Relaxed);
            if t != 0 && now > t + STALL {
                let spec = s.spec.lock().unwrap().clone();
                let still = || s.beat.load(Ordering::Relaxed) == t;
                stalled(check, &spec, &still, tier, seed, verif);
            }
        }
        if let Some((t, ref what)) = *SHRINKING.lock().unwrap() {
            if now > t + 150 {
                print!("{}", what);
                let _ = std::fs::remove_file(pending_path(verif, check.id));
                std::process::exit(1);
            }
        }
    });
    let record = Record::new(verif, check.id);
    let enter = |t: usize, part: usize, spec: &Spec| {
        record.set(t, part, spec);
        let s = &slots[t];
        *s.spec.lock().unwrap() = spec.clone();
        s.beat.store(clock.elapsed().as_secs().max(1), Ordering::Relaxed);
    };
    let mut total = Stats::default();
    let mut parts_ev = vec![];
    let mut failed: Option<(usize, Fail)> = None;
    let passes: &[bool] = if guidable(check) { &[false, true] } else { &[false] };
    'all: for &guided in passes {
        for (pi, part) in check.parts.iter().enumerate() {
            if guided && part.exhaustive {
                continue;
            }
            let part_start = Instant::now();
            let n = count(part, thorough);
            let next = AtomicU64::new(0);
            let best: Mutex<Option<Fail>> = Mutex::new(None);
            let stats: Mutex<Stats> = Mutex::new(Stats::default());
            let search: Mutex<[u64; 3]> = Mutex::new([0; 3]);
            let min_fail = AtomicU64::new(u64::MAX);
            std::thread::scope(|sc| {
                for t in 0..threads() {
                    let (next, best, stats, min_fail, search, enter, record) = (&next, &best, &stats, &min_fail, &search, &enter, &record);
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(sc, move || {
                            let mut my = Stats::default();
                            while guided {
                                let k = next.fetch_add(1, Ordering::Relaxed);
                                if k >= ISLANDS {
                                    break;
                                }
                                let mut before = |spec: &Spec| {
                                    enter(t, pi, spec);
                                    spec.index <= min_fail.load(Ordering::Relaxed)
                                };
                                let (f, x) = run_island(check, part, k, guided_count(part, thorough), seed, thorough, listed, &mut before, &mut my);
                                let mut m = search.lock().unwrap();
                                for j in 0..3 {
                                    m[j] = m[j].max(x[j]);
                                }
                                if let Some(f) = f {
                                    min_fail.fetch_min(f.index, Ordering::Relaxed);
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |g| (f.index, &f.tape) < (g.index, &g.tape)) {
                                        *b = Some(f);
                                    }
                                }
                            }
                            while !guided {
                                let lo = next.fetch_add(16, Ordering::Relaxed);
                                if lo >= n {
                                    break;
                                }
                                for i in lo..(lo + 16).min(n) {
                                    if i > min_fail.load(Ordering::Relaxed) {
                                        break;
                                    }
                                    enter(t, pi, &Spec { part: part.name, index: i, input: vec![], tail: case_seed(seed, check.id, part, i) });
                                    let mut src = case_src(seed, check.id, part, i);
                                    let mut ctx = new_ctx(listed, i < 4 || i == n / 2, thorough);
                                    let r = run_one(part, &mut src, i, &mut ctx);
                                    note(&mut my, ctx, i);
                                    if let Outcome1::Fail(msg) = r {
                                        min_fail.fetch_min(i, Ordering::Relaxed);
                                        let mut b = best.lock().unwrap();
                                        if b.as_ref().map_or(true, |f| i < f.index) {
                                            *b = Some(Fail { index: i, tape: src.rec.clone(), msg });
                                        }
                                    }
                                }
                            }
                            slots[t].beat.store(0, Ordering::Relaxed);
                            record.clear(t);
                            merge(&mut stats.lock().unwrap(), my);
                        })
                        .unwrap();
                }
            });
            let mut s = stats.into_inner().unwrap();
            s.samples.sort_by_key(|x| x.0);
            let mut ev = json!({
                "part": part.name,
                "search": if guided { "guided by coverage" } else if part.exhaustive { "exhaustive" } else { "random" },
                "evaluations": s.evaluations,
                "nontrivial": s.nontrivial,
                "distinct_nontrivial": s.prints.len(),
                "exhaustive": part.exhaustive,
                "labels": s.labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
                "known_findings_met": s.known.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
                "wall_s": part_start.elapsed().as_secs_f64(),
            });
            if guided {
                let m = search.into_inner().unwrap();
                ev["most_in_an_island"] = json!({"features": m[0], "places": m[1], "corpus": m[2]});
            }
            parts_ev.push(ev);
            total.evaluations += s.evaluations;
            total.nontrivial += s.nontrivial;
            let salt = hash_str(part.name);
            total.prints.extend(s.prints.iter().map(|p| mix(p ^ salt)));
            let kind = if guided { "guided" } else { "case" };
            total.samples.extend(s.samples.into_iter().take(if guided { 1 } else { 3 }).map(|(i, x)| (i, json!({"part": part.name, kind: i, "what": x}))));
            if let Some(f) = best.into_inner().unwrap() {
                failed = Some((pi, f));
                break 'all;
            }
        }
    }
    let _ = std::fs::remove_file(running_path(verif, check.id));
    let mut code = 0;
    let mut violations = 0;
    let mut findings_ev = vec![];
    for f in check.findings {
        let r = match catch_unwind(AssertUnwindSafe(f.probe)) {
            Ok(r) => r,
            Err(_) => Some(format!("the probe panics: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        findings_ev.push(json!({"id": f.id, "fails": r.is_some(), "listed": listed.iter().any(|l| l == f.id)}));
        if let Some(what) = r {
            if listed.iter().any(|l| l == f.id) {
                println!("KNOWN-FINDING: property={} {}", check.id, what);
            } else if violations == 0 && failed.is_none() {
                let path = replay_path(verif, check.id, f.id);
                let doc = json!({"property": check.id, "finding": f.id, "failure": what});
                std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("harness: cannot write the replay file");
                println!("{}", what);
                println!("VIOLATION property={} replay={}", check.id, path);
                violations = 1;
                code = 1;
            }
        }
    }
    if let Some((pi, f)) = failed {
        violations = 1;
        let part = &check.parts[pi];
        // if the process does not come through the shrinking, the failure is reported as it is
        let path = replay_path(verif, check.id, part.name);
        let doc = json!({"property": check.id, "part": part.name, "seed": seed, "index": f.index, "tape": f.tape, "failure": f.msg});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("harness: cannot write the replay file");
        short_evidence(check, tier, seed, verif, doc);
        let says = format!("part {}: {}\nVIOLATION property={} replay={}\n", part.name, f.msg, check.id, path);
        let _ = std::fs::write(pending_path(verif, check.id), &says);
        *SHRINKING.lock().unwrap() = Some((clock.elapsed().as_secs(), says));
        let (tape, msg, what) = shrink_failure(check, part, f, listed, thorough);
        *SHRINKING.lock().unwrap() = None;
        let _ = std::fs::remove_file(pending_path(verif, check.id));
        let doc = json!({
            "property": check.id,
            "part": part.name,
            "seed": seed,
            "index": tape.1,
            "tape": tape.0,
            "failure": msg,
            "case": what,
            "replay": format!("harness/target/release/vharness replay {}", path),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("harness: cannot write the replay file");
        println!("part {}: {}", part.name, msg);
        if let Some(w) = what {
            println!("case: {}", w);
        }
        println!("VIOLATION property={} replay={}", check.id, path);
        code = 1;
    }
    let ev = json!({
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.prints.len(),
            "rule": check.rule,
            "nontrivial_with_repeats": total.nontrivial,
            "parts": parts_ev,
            "findings": findings_ev,
            "samples": total.samples.into_iter().map(|x| x.1).collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, check.id), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("harness: cannot write the evidence");
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s{}",
        check.id,
        tier,
        total.evaluations,
        total.prints.len(),
        start.elapsed().as_secs_f64(),
        if code == 0 { ", held" } else { "" }
    );
    code
}

fn replay_path(verif: &str, id: &str, name: &str) -> String {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    format!("{}/{}-{}.json", dir, id, name)
}

fn shrink_failure(
    _check: &Check,
    part: &Part,
    f: Fail,
    listed: &'static [String],
    thorough: bool,
) -> ((Vec<u32>, u64), String, Option<J>) {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(sc, || {
                let tape = if part.exhaustive {
                    vec![]
                } else {
                    shrink(f.tape.clone(), 6000, |t| {
                        let mut s = Src::replay(t);
                        let mut c = new_ctx(listed, false, thorough);
                        match run_one(part, &mut s, f.index, &mut c) {
                            Outcome1::Fail(_) => Some(s.rec.clone()),
                            Outcome1::Ok => None,
                        }
                    })
                };
                let mut s = Src::replay(&tape);
                let mut c = new_ctx(listed, true, thorough);
                let msg = match run_one(part, &mut s, f.index, &mut c) {
                    Outcome1::Fail(m) => m,
                    Outcome1::Ok => format!("{} (does not fail again when it is run once more)", f.msg),
                };
                ((tape, f.index), msg, c.sample)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// Runs the cases lo..hi of a part and nothing else.
pub fn run_range(check: &Check, part: &str, lo: u64, hi: u64, seed: u64, thorough: bool, known: &'static [(String, String, String)]) {
    let listed: &'static [String] =
        Box::leak(known.iter().filter(|k| k.0 == check.id).map(|k| k.1.clone()).collect::<Vec<_>>().into_boxed_slice());
    let part = check.parts.iter().find(|p| p.name == part).expect("harness: no such part");
    let next = AtomicU64::new(lo);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= hi {
                        break;
                    }
                    let mut src = case_src(seed, check.id, part, i);
                    let mut ctx = new_ctx(listed, false, thorough);
                    run_one(part, &mut src, i, &mut ctx);
                })
                .unwrap();
        }
    });
}

/// The process that ran the cases was ended by a signal: find the first case that does that.
pub fn find_crash(check: &Check, tier: &str, seed: u64, verif: &str, signal: i32) -> i32 {
    let exe = std::env::current_exe().expect("harness: no executable");
    let crashes = |part: &str, lo: u64, hi: u64| -> bool {
        let s = std::process::Command::new(&exe)
            .args(["range", check.id, part, &lo.to_string(), &hi.to_string()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("harness: cannot run itself");
        use std::os::unix::process::ExitStatusExt;
        s.signal().is_some()
    };
    // one of the cases that were running
    for spec in last_cases(check, verif) {
        let path = replay_path(verif, check.id, spec.part);
        let doc = spec.json(check.id, &format!("the process is ended by signal {}", signal));
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("harness: cannot write the replay file");
        let s = std::process::Command::new(&exe)
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("harness: cannot run itself");
        use std::os::unix::process::ExitStatusExt;
        if s.signal().is_some() {
            short_evidence(check, tier, seed, verif, doc);
            println!("part {}: a case ends the process with signal {}", spec.part, signal);
            println!("VIOLATION property={} replay={}", check.id, path);
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    // or several of them together
    for part in &check.parts {
        let n = count(part, tier == "thorough");
        if !crashes(part.name, 0, n) {
            continue;
        }
        let (mut lo, mut hi) = (0, n);
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if crashes(part.name, lo, mid) {
                hi = mid;
            } else {
                lo = mid;
            }
        }
        if !crashes(part.name, lo, hi) {
            continue;
        }
        // the case, from the tape it draws
        let path = replay_path(verif, check.id, part.name);
        let doc = json!({
            "property": check.id, "part": part.name, "seed": seed, "tier": tier, "index": lo, "tape": [],
            "failure": format!("the process is ended by signal {}", signal),
            "crash": true,
            "replay": format!("VERIF_SEED={} VERIF_TIER={} harness/target/release/vharness range {} {} {} {}", seed, tier, check.id, part.name, lo, hi),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("harness: cannot write the replay file");
        let ev = json!({
            "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": lo, "distinct_nontrivial": 0, "rule": check.rule, "samples": [doc]},
            "wall_s": 0.0, "violations": 1,
        });
        let dir = format!("{}/evidence", verif);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{}/{}.json", dir, check.id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
        println!("part {}: case {} ends the process with signal {}", part.name, lo, signal);
        println!("VIOLATION property={} replay={}", check.id, path);
        return 1;
    }
    println!("CHECK-ERROR ended by signal {}, and not again", signal);
    2
}

pub fn replay(check: &Check, j: &J, known: &'static [(String, String, String)]) -> i32 {
    let listed: &'static [String] =
        Box::leak(known.iter().filter(|k| k.0 == check.id).map(|k| k.1.clone()).collect::<Vec<_>>().into_boxed_slice());
    if let Some(id) = j["finding"].as_str() {
        let f = check.findings.iter().find(|f| f.id == id).expect("harness: no such finding");
        return match (f.probe)() {
            None => {
                println!("holds");
                0
            }
            Some(m) => {
                println!("fails: {}", m);
                1
            }
        };
    }
    let part = check.parts.iter().find(|p| j["part"] == p.name).expect("harness: no such part");
    let list = |x: &J| -> Vec<u32> { x.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()) };
    let idx = j["index"].as_u64().unwrap();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(sc, || {
                let mut s = match j["tail"].as_u64() {
                    Some(t) if !part.exhaustive => Src::guided(list(&j["input"]), t),
                    _ => Src::replay(&list(&j["tape"])),
                };
                let mut c = new_ctx(listed, true, false);
                let r = run_one(part, &mut s, idx, &mut c);
                if let Some(x) = c.sample {
                    println!("case: {}", x);
                }
                match r {
                    Outcome1::Ok => None,
                    Outcome1::Fail(m) => Some(m),
                }
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        None => {
            println!("holds");
            0
        }
        Some(m) => {
            println!("fails: {}", m);
            1
        }
    }
}
