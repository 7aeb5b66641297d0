//! The counters of the coverage-guided search. tomllib and the crate of calls to it are built with calls to these functions
//! (rustc-wrapper.sh); the harness, nom and the rest are not. Each thread counts into a map of its own.
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering};

const CMP: usize = 1 << 16;
const IS_CMP: u32 = 1 << 31;

/// The number of places that are counted; place 0 is none.
static PLACES: AtomicU32 = AtomicU32::new(1);

thread_local! {
    static MAP: Cell<*mut u8> = const { Cell::new(null_mut()) };
    static CMPS: Cell<*mut u8> = const { Cell::new(null_mut()) };
    static LAST: Cell<u32> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    /// The places and the comparisons that are not zero, in the order in which they came up.
    static HITS: Cell<*mut Vec<u32>> = const { Cell::new(null_mut()) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = PLACES.fetch_add(1, Ordering::Relaxed);
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    STEPS.set(STEPS.get() + 1);
    let m = MAP.get();
    if m.is_null() {
        return;
    }
    let g = *guard;
    let c = m.add(g as usize);
    if *c == 0 {
        (*HITS.get()).push(g);
    }
    *c = (*c).saturating_add(1);
    LAST.set(g);
}

/// Notes how near a comparison with a constant comes to being equal.
#[inline(always)]
fn near(k: u64, v: u64) {
    let m = CMPS.get();
    if m.is_null() || k < 3 || k > 1 << 20 {
        return;
    }
    let d = k.abs_diff(v);
    if d > 1 << 12 {
        return;
    }
    let bucket = 64 - d.leading_zeros() as u64;
    let h = (LAST.get() as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xff51afd7ed558ccd) ^ bucket.wrapping_mul(0xc4ceb9fe1a85ec53);
    let i = (h >> 40) as usize & (CMP - 1);
    unsafe {
        if *m.add(i) == 0 {
            (*HITS.get()).push(i as u32 | IS_CMP);
            *m.add(i) = 1;
        }
    }
}

macro_rules! cmps {
    ($($f:ident $g:ident $t:ty;)*) => {$(
        #[no_mangle]
        pub extern "C" fn $f(_: $t, _: $t) {}
        #[no_mangle]
        pub extern "C" fn $g(k: $t, v: $t) {
            near(k as u64, v as u64);
        }
    )*};
}
cmps! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64;
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *mut u64) {}

/// The number of basic blocks of tomllib the current thread has run.
pub fn steps() -> u64 {
    STEPS.get()
}

/// Counts what the current thread runs.
pub struct Counter {
    map: Vec<u8>,
    cmps: Vec<u8>,
    hits: Box<Vec<u32>>,
}

/// The features seen so far.
pub struct Seen {
    map: Vec<u8>,
    cmps: Vec<u8>,
    pub features: u64,
    pub places: u64,
}

impl Counter {
    pub fn new() -> Counter {
        let n = PLACES.load(Ordering::Relaxed) as usize;
        Counter { map: vec![0; n], cmps: vec![0; CMP], hits: Box::default() }
    }
    pub fn start(&mut self) {
        for &h in self.hits.iter() {
            if h & IS_CMP != 0 {
                self.cmps[(h ^ IS_CMP) as usize] = 0;
            } else {
                self.map[h as usize] = 0;
            }
        }
        self.hits.clear();
        LAST.set(0);
        HITS.set(&mut *self.hits);
        CMPS.set(self.cmps.as_mut_ptr());
        MAP.set(self.map.as_mut_ptr());
    }
    pub fn stop(&self) {
        MAP.set(null_mut());
        CMPS.set(null_mut());
        HITS.set(null_mut());
    }
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Seen {
    pub fn new(c: &Counter) -> Seen {
        Seen { map: vec![0; c.map.len()], cmps: vec![0; CMP], features: 0, places: 0 }
    }
    /// Adds what was counted; returns the number of features that are new.
    pub fn add(&mut self, c: &Counter) -> u64 {
        let before = self.features;
        for &h in c.hits.iter() {
            if h & IS_CMP != 0 {
                let x = &mut self.cmps[(h ^ IS_CMP) as usize];
                self.features += 1 - *x as u64;
                *x = 1;
            } else {
                let b = bucket(c.map[h as usize]);
                let x = &mut self.map[h as usize];
                if b & !*x != 0 {
                    self.places += (*x == 0) as u64;
                    *x |= b;
                    self.features += 1;
                }
            }
        }
        self.features - before
    }
}
