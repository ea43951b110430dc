//! Coverage of the code under test, for guided generation: in the guided build the crates of /repo (and only
//! they) carry SanitizerCoverage counters and comparison hooks, which report here. In other builds nothing
//! registers, and everything below is empty.
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

static REGIONS: [(AtomicUsize, AtomicUsize); 256] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; 256];
static NREGIONS: AtomicUsize = AtomicUsize::new(0);
static PCS: [AtomicUsize; 256] = [const { AtomicUsize::new(0) }; 256];
static NPCS: AtomicUsize = AtomicUsize::new(0);

const VALUE_BITS: usize = 1 << 16;
static mut VALUES: [u64; VALUE_BITS / 64] = [0; VALUE_BITS / 64];

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start == stop {
        return;
    }
    let n = NREGIONS.load(Ordering::Relaxed);
    if n < 256 && !REGIONS[..n].iter().any(|r| r.0.load(Ordering::Relaxed) == start as usize) {
        REGIONS[n].0.store(start as usize, Ordering::Relaxed);
        REGIONS[n].1.store(stop as usize, Ordering::Relaxed);
        NREGIONS.store(n + 1, Ordering::Relaxed);
    }
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    if start == stop {
        return;
    }
    let n = NPCS.load(Ordering::Relaxed);
    if n < 256 && !PCS[..n].iter().any(|r| r.load(Ordering::Relaxed) == start as usize) {
        PCS[n].store(start as usize, Ordering::Relaxed);
        NPCS.store(n + 1, Ordering::Relaxed);
    }
}

/// How many comparisons of a case are looked at: the time of cases stays in proportion.
const LOOKED_AT: u32 = 30_000;
static LEFT: AtomicU32 = AtomicU32::new(0);

/// How close the two sides of a comparison came is a feature of the case, as reaching a branch is.
#[no_mangle]
unsafe extern "C" fn vp_compared(a: u64, b: u64, pc: usize) {
    let left = LEFT.load(Ordering::Relaxed);
    if left == 0 {
        return;
    }
    LEFT.store(left - 1, Ordering::Relaxed);
    let site = (pc.wrapping_sub(vp_compared as *const () as usize) as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 48;
    let near = (a ^ b).count_ones() as u64;
    let by = 128 - a.abs_diff(b).leading_zeros() as u64;
    let p = &raw mut VALUES as *mut u64;
    for f in [site ^ near << 7, site ^ by << 7] {
        let i = f as usize % VALUE_BITS;
        *p.add(i / 64) |= 1 << (i % 64);
    }
}

macro_rules! hook {
    ($name:ident, $a:literal, $b:literal) => {
        #[no_mangle]
        #[unsafe(naked)]
        unsafe extern "C" fn $name() {
            core::arch::naked_asm!($a, $b, "mov rdx, [rsp]", "jmp {}", sym vp_compared)
        }
    };
}
hook!(__sanitizer_cov_trace_cmp1, "movzx edi, dil", "movzx esi, sil");
hook!(__sanitizer_cov_trace_cmp2, "movzx edi, di", "movzx esi, si");
hook!(__sanitizer_cov_trace_cmp4, "mov edi, edi", "mov esi, esi");
hook!(__sanitizer_cov_trace_cmp8, "nop", "nop");
hook!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil", "movzx esi, sil");
hook!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di", "movzx esi, si");
hook!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi", "mov esi, esi");
hook!(__sanitizer_cov_trace_const_cmp8, "nop", "nop");

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let n = *cases as usize;
    for i in 0..n.min(16) {
        vp_compared(v, *cases.add(2 + i), cases as usize + i);
    }
}

pub fn instrumented() -> bool {
    NREGIONS.load(Ordering::Relaxed) > 0
}
fn regions() -> impl Iterator<Item = (usize, usize)> {
    (0..NREGIONS.load(Ordering::Relaxed)).map(|i| (REGIONS[i].0.load(Ordering::Relaxed), REGIONS[i].1.load(Ordering::Relaxed)))
}
pub fn edges() -> usize {
    regions().map(|(a, b)| b - a).sum()
}
/// Start of a case.
pub fn begin() {
    unsafe {
        for (a, b) in regions() {
            std::ptr::write_bytes(a as *mut u8, 0, b - a);
        }
        std::ptr::write_bytes(&raw mut VALUES as *mut u8, 0, VALUE_BITS / 8);
    }
    LEFT.store(LOOKED_AT, Ordering::Relaxed);
}

/// What a worker has reached so far.
pub struct Reached {
    /// Bit k of an edge: the edge has been passed a number of times of the k-th magnitude in one case.
    edges: Vec<u8>,
    values: Vec<u64>,
}
impl Reached {
    pub fn new() -> Reached {
        Reached { edges: vec![0; edges()], values: vec![0; VALUE_BITS / 64] }
    }
    /// End of a case: how many edges (or magnitudes) and how many nearer comparisons were new.
    pub fn end(&mut self) -> (u32, u32) {
        LEFT.store(0, Ordering::Relaxed);
        let mut new = (0, 0);
        let mut at = 0;
        for (a, b) in regions() {
            let c = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
            for (i, n) in c.iter().enumerate() {
                if *n != 0 {
                    let bit = match *n {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128u8,
                    };
                    let e = &mut self.edges[at + i];
                    if *e & bit == 0 {
                        *e |= bit;
                        new.0 += 1;
                    }
                }
            }
            at += b - a;
        }
        let v = &raw const VALUES as *const u64;
        for (i, have) in self.values.iter_mut().enumerate() {
            let now = unsafe { *v.add(i) };
            let fresh = now & !*have;
            if fresh != 0 {
                new.1 += fresh.count_ones();
                *have |= now;
            }
        }
        new
    }
    pub fn edge_bits(&self) -> Vec<u8> {
        self.edges.iter().map(|e| (*e != 0) as u8).collect()
    }
}

/// Addresses of the edges relative to the start of the program, for tools that name them.
pub fn edge_pcs() -> Vec<usize> {
    let base = base();
    let mut v = vec![];
    for (i, (a, b)) in regions().enumerate() {
        let p = PCS[i].load(Ordering::Relaxed) as *const usize;
        for k in 0..b - a {
            v.push(if p.is_null() { 0 } else { unsafe { (*p.add(2 * k)).wrapping_sub(base) } });
        }
    }
    v
}
fn base() -> usize {
    std::fs::read_to_string("/proc/self/maps").ok().and_then(|m| usize::from_str_radix(m.split('-').next()?, 16).ok()).unwrap_or(0)
}
