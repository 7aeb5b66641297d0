//! The choice tape: every random decision of a case is one bounded draw, recorded on a tape. A case is a pure function
//! of its tape, so shrinking edits the tape and replaying feeds it back.

use crate::dict::dict;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) * n as u64 >> 32) as usize
    }
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}

pub struct Src {
    input: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u32>,
    /// How many values each choice had.
    pub lim: Vec<u32>,
    /// Which dimension of the case goes far beyond its usual size: one of the constants below, 0 for none.
    pub stretch: usize,
    /// The size it then has, if it is one that the sources name.
    pub size: Option<usize>,
    /// Whether texts of the sources are put into the case.
    pub words: bool,
    /// Whether something stands in the case very many times: too dear to be tried again with small changes.
    pub heavy: bool,
}

pub const ITEMS: usize = 1;
pub const LENGTH: usize = 2;
pub const DEPTH: usize = 3;
pub const PATH: usize = 4;
pub const REPEAT: usize = 5;
pub const TEXT: usize = 6;
pub const BLANK: usize = 7;
pub const FAMILY: usize = 8;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { input: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: Vec::new(), lim: Vec::new(), stretch: 0, size: None, words: false, heavy: false }
    }
    pub fn replay(tape: &[u32]) -> Src {
        Src { input: tape.to_vec(), pos: 0, rng: None, rec: Vec::new(), lim: Vec::new(), stretch: 0, size: None, words: false, heavy: false }
    }
    /// A given beginning, and random choices after it.
    pub fn guided(tape: Vec<u32>, seed: u64) -> Src {
        Src { input: tape, ..Src::random(seed) }
    }
    /// Whether this is a known case once more.
    pub fn replays(&self) -> bool {
        self.rng.is_none()
    }
    /// A number in 0..n; shrinks towards 0.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.input.len() {
            self.input[self.pos].min(n - 1)
        } else {
            match self.rng {
                Some(ref mut r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
                None => 0,
            }
        };
        self.pos += 1;
        self.rec.push(v);
        self.lim.push(n);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// A number in lo..=hi; shrinks towards lo.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u32) as i64
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    /// An index chosen by weight; shrinks towards index 0.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// Turns some cases to the numbers and texts in the sources; many, if there are any that are not known.
    pub fn focus(&mut self) {
        let d = dict();
        let new = !d.new_ints.is_empty() || !d.new_words.is_empty();
        if !self.chance(if new { 14 } else { 2 }, 64) {
            return;
        }
        let ints = if !d.new_ints.is_empty() && self.chance(7, 8) { &d.new_ints } else { &d.ints };
        if !ints.is_empty() && self.chance(2, 3) {
            let n = ints[self.usize(ints.len())];
            let n = match self.weighted(&[4, 4, 1, 2]) {
                0 => n,
                1 => n + 1,
                2 => n.saturating_sub(1),
                _ => n * 2,
            };
            self.size = Some(n);
            self.stretch = 1 + self.usize(8);
        }
        if self.size.is_none() || self.bool() {
            self.words = true;
        }
    }
    /// A text of the sources, now and then, if this case is to have any.
    pub fn word(&mut self) -> Option<&'static str> {
        if !self.words || !self.chance(1, 6) {
            return None;
        }
        let d = dict();
        let words = if !d.new_words.is_empty() && self.chance(7, 8) { &d.new_words } else { &d.words };
        if words.is_empty() {
            return None;
        }
        Some(&words[self.usize(words.len())])
    }
    /// The same for a number.
    pub fn number(&mut self) -> Option<usize> {
        if !self.words || !self.chance(1, 6) {
            return None;
        }
        let d = dict();
        let ints = if !d.new_ints.is_empty() && self.chance(7, 8) { &d.new_ints } else { &d.ints };
        if ints.is_empty() {
            return None;
        }
        let n = ints[self.usize(ints.len())];
        Some(match self.weighted(&[4, 1, 1]) {
            0 => n,
            1 => n + 1,
            _ => n.saturating_sub(1),
        })
    }
    /// The size for the dimension that grows, where it is one that the sources name.
    pub fn sized(&self, what: usize, max: usize) -> Option<usize> {
        if self.stretch == what {
            self.size.filter(|&n| n > 0).map(|n| n.min(max))
        } else {
            None
        }
    }
    /// Lets one dimension grow, once in `den` cases.
    pub fn stretch(&mut self, den: u32) {
        if self.stretch == 0 && self.chance(1, den) {
            self.stretch = 1 + self.usize(8);
        }
    }
    /// Lets the given dimension grow, once in `den` cases.
    pub fn stretch_only(&mut self, what: usize, den: u32) {
        if self.size.is_some() {
            self.stretch = what;
        } else if self.stretch == 0 && self.chance(1, den) {
            self.stretch = what;
        }
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.usize(xs.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Whether a sequence of `n` elements so far goes on, for sequences of `avg` elements on average.
    pub fn more(&mut self, n: usize, avg: u32, max: usize) -> bool {
        n < max && self.chance(avg, avg + 1)
    }
}

/// Shrinks a failing tape. `fails` must return the tape actually consumed if the case still fails in the same way.
pub fn shrink<F: FnMut(&[u32]) -> Option<Vec<u32>>>(start: Vec<u32>, budget: usize, mut fails: F) -> Vec<u32> {
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(40);
    let mut best = start;
    let mut evals = 0;
    let mut attempt = |t: &[u32], best: &Vec<u32>, evals: &mut usize| -> Option<Vec<u32>> {
        if *evals >= budget || std::time::Instant::now() > deadline {
            return None;
        }
        *evals += 1;
        match fails(t) {
            Some(r) if r.len() < best.len() || (r.len() == best.len() && r < *best) => Some(r),
            _ => None,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let hi = i.min(best.len());
                if lo < hi {
                    let mut t = best[..lo].to_vec();
                    t.extend_from_slice(&best[hi..]);
                    if let Some(r) = attempt(&t, &best, &mut evals) {
                        best = r;
                    }
                }
                if lo == 0 {
                    break;
                }
                i = if size > 4 { lo } else { i - 1 };
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..hi] {
                        *x = 0;
                    }
                    if let Some(r) = attempt(&t, &best, &mut evals) {
                        best = r;
                    }
                }
                i += size;
            }
        }
        // reduce single entries
        let mut i = 0;
        while i < best.len() {
            let mut step = best[i] / 2;
            while i < best.len() && best[i] > 0 {
                let v = best[i];
                let mut t = best.clone();
                t[i] = v.saturating_sub(step.max(1));
                match attempt(&t, &best, &mut evals) {
                    Some(r) => best = r,
                    None if step > 1 => step /= 2,
                    None => break,
                }
            }
            i += 1;
        }
        // drop a draw and lower an earlier one (a length counter, say)
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 {
                let mut t = best.clone();
                t[i] -= 1;
                t.remove(i + 1);
                if let Some(r) = attempt(&t, &best, &mut evals) {
                    best = r;
                }
            }
            i += 1;
        }
        if best == before || evals >= budget || std::time::Instant::now() > deadline {
            return best;
        }
    }
}
