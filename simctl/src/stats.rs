//! Counters shared by the search's worker processes.
use crate::arena::shared;
use crate::ops::N_OPS;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering::*};

pub const NAMES: [&str; 42] = [
    "runs", "inconclusive", "processes", "steps", "switches", "preemptions", "instruction_preemptions", "instructions_stepped",
    "futex_blocks", "futex_wakes", "yields", "threads_started", "stalls", "stalls_ended", "crashes", "alloc_calls", "alloc_failures",
    "clock_reads", "random_reads", "neighbour_writes", "calls_returned", "calls_rejected", "fault_truncated", "fault_stride",
    "fault_zero", "fault_mismatch", "fault_descriptor", "fault_huge", "fault_tight", "fault_oversized", "retries",
    "stale_buffers", "guarded_sources", "bands", "known", "library_allocs",
    "guarded_padding_rows", "static_accesses_seen", "machines", "handovers", "modelled_samples", "foreign_writes_awaited",
];
pub fn id(n: &str) -> usize {
    NAMES.iter().position(|x| *x == n).unwrap()
}
pub const SIGBITS: usize = 1 << 26;
#[repr(C)]
pub struct Stats {
    pub v: [AtomicU64; 42],
    pub ops: [AtomicU8; N_OPS],
    pub stop: AtomicBool,
    pub found: AtomicU64,
    pub text_len: AtomicU64,
    pub known: [AtomicU64; 256],
    pub text: [u8; 1 << 20],
    pub sig: [AtomicU8; SIGBITS / 8],
}
impl Stats {
    pub unsafe fn new() -> &'static mut Stats {
        &mut *(shared(std::mem::size_of::<Stats>()) as *mut Stats)
    }
    pub fn add(&self, n: &str, k: u64) {
        self.v[id(n)].fetch_add(k, Relaxed);
    }
    pub fn get(&self, n: &str) -> u64 {
        self.v[id(n)].load(Relaxed)
    }
    pub fn mark(&self, s: u64) {
        let b = (s >> 13) as usize % SIGBITS;
        self.sig[b / 8].fetch_or(1 << (b % 8), Relaxed);
    }
    pub fn distinct(&self) -> u64 {
        self.sig.iter().map(|b| b.load(Relaxed).count_ones() as u64).sum()
    }
}
