//! The system under simulation: the real `yuv` crate from /repo behind a C ABI, one shared object per build
//! (sequential / `rayon`). Nothing here is a model: every entry of `dispatch::TABLE` calls one public function of the
//! crate. The simulator supplies the allocator, the preemption hook and (by symbol interposition) threads and futexes.
#![feature(f16, avx512_target_feature)]
#![allow(clippy::all)]

mod dispatch;
mod own;

use std::alloc::{GlobalAlloc, Layout};
use std::fmt::Write;
use yuv::*;

#[repr(C)]
pub struct RPlane {
    pub ptr: *mut u8,
    /// length in elements
    pub len: usize,
    /// stride in elements
    pub stride: usize,
    /// elements of a row, rows
    pub row: usize,
    pub rows: usize,
}

#[repr(C)]
pub struct RawCall {
    pub op: u32,
    pub nplanes: u32,
    pub w: [u32; 2],
    pub h: [u32; 2],
    pub range: u32,
    pub matrix: u32,
    pub mode: u32,
    pub flag: u32,
    pub depth: u32,
    pub order: u32,
    pub gamma: u32,
    pub geo: u32,
    pub kr: f32,
    pub kb: f32,
    /// how the images come about (see own.rs), and which of them are malformed
    pub own: u32,
    pub bad: u32,
    pub planes: [RPlane; 6],
    /// out: hash of the Display text of the error
    pub err: u64,
}

unsafe fn ms<'a, T>(c: &RawCall, i: usize) -> &'a [T] {
    core::slice::from_raw_parts(c.planes[i].ptr as *const T, c.planes[i].len)
}
unsafe fn md<'a, T>(c: &RawCall, i: usize) -> &'a mut [T] {
    core::slice::from_raw_parts_mut(c.planes[i].ptr as *mut T, c.planes[i].len)
}
fn rng(c: &RawCall) -> YuvRange {
    if c.range == 0 { YuvRange::Limited } else { YuvRange::Full }
}
fn mtx(c: &RawCall) -> YuvStandardMatrix {
    match c.matrix {
        0 => YuvStandardMatrix::Bt601,
        1 => YuvStandardMatrix::Bt709,
        2 => YuvStandardMatrix::Bt2020,
        3 => YuvStandardMatrix::Smpte240,
        4 => YuvStandardMatrix::Bt470_6,
        5 => YuvStandardMatrix::Fcc,
        _ => YuvStandardMatrix::Custom(c.kr, c.kb),
    }
}
fn cm(c: &RawCall) -> YuvConversionMode {
    match c.mode {
        0 => YuvConversionMode::Balanced,
        #[cfg(feature = "full")]
        1 => YuvConversionMode::Fast,
        #[cfg(feature = "full")]
        2 => YuvConversionMode::Professional,
        _ => YuvConversionMode::Balanced,
    }
}
fn bo(c: &RawCall) -> Rgb30ByteOrder {
    if c.order == 0 { Rgb30ByteOrder::Host } else { Rgb30ByteOrder::Network }
}
fn gm(c: &RawCall) -> SharpYuvGammaTransfer {
    match c.gamma {
        0 => SharpYuvGammaTransfer::Srgb,
        1 => SharpYuvGammaTransfer::Rec709,
        2 => SharpYuvGammaTransfer::Gamma2p2,
        _ => SharpYuvGammaTransfer::Gamma2p8,
    }
}
fn rm(c: &RawCall) -> RotationMode {
    match c.geo {
        0 => RotationMode::Rotate90,
        1 => RotationMode::Rotate180,
        _ => RotationMode::Rotate270,
    }
}
fn mm(c: &RawCall) -> MirrorMode {
    if c.geo == 0 { MirrorMode::Vertical } else { MirrorMode::Horizontal }
}

struct H(u64);
impl Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// 0 = Ok, otherwise the low byte is the error kind and the rest a hash of its text.
fn ret(r: Result<(), YuvError>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => {
            let k = match e {
                YuvError::DestinationSizeMismatch(_) => 1,
                YuvError::MinimumStrideSizeMismatch(_) => 2,
                YuvError::PointerOverflow => 3,
                YuvError::ZeroBaseSize => 4,
                YuvError::LumaPlaneSizeMismatch(_) => 5,
                YuvError::LumaPlaneMinimumSizeMismatch(_) => 6,
                YuvError::ChromaPlaneMinimumSizeMismatch(_) => 7,
                YuvError::ChromaPlaneSizeMismatch(_) => 8,
                YuvError::PackedFrameSizeMismatch(_) => 9,
                YuvError::ImagesSizesNotMatch => 10,
                YuvError::ImageDimensionsNotMatch => 11,
                #[allow(unreachable_patterns)]
                _ => 12,
            };
            let mut h = H(0xcbf29ce484222325);
            let _ = write!(h, "{}", e);
            k | (((h.0 ^ (h.0 >> 32)) as i32 & 0x7fffff) << 8)
        }
    }
}

pub const STATUS_PANIC: i32 = 200;

#[no_mangle]
pub unsafe extern "C" fn node_call(c: *mut RawCall) -> i32 {
    let f = dispatch::TABLE[(*c).op as usize];
    match std::panic::catch_unwind(|| f(&*c)) {
        Ok(v) => v,
        Err(_) => STATUS_PANIC,
    }
}

/// Calls made by tasks of the library's own thread pool.
#[cfg(feature = "par")]
#[no_mangle]
pub unsafe extern "C" fn node_nested(calls: *const *mut RawCall, status: *mut i32, n: usize) {
    struct One(*mut RawCall, *mut i32);
    unsafe impl Send for One {}
    let list: Vec<One> = (0..n).map(|i| One(*calls.add(i), status.add(i))).collect();
    rayon::scope(move |s| {
        for one in list {
            s.spawn(move |_| {
                let one = one;
                *one.1 = node_call(one.0);
            });
        }
    });
}

// ---------------------------------------------------------------- preemption seam
/// The seams' own state, on pages of its own: the simulator may make the rest of the module's data inaccessible, so that it
/// sees every access to memory the library would share between calls.
#[repr(C, align(4096))]
pub struct Own {
    budget: i64,
    hook: Option<extern "C" fn()>,
    cov: *mut u8,
    nguard: u32,
    guards: usize,
    alloc: Option<&'static AllocHooks>,
}
static mut OWN: Own = Own { budget: i64::MAX, hook: None, cov: core::ptr::null_mut(), nguard: 0, guards: 0, alloc: None };

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !OWN.cov.is_null() {
        *OWN.cov.add((g as usize - OWN.guards) / 4 + 1) = 1;
    }
    OWN.budget -= 1;
    if OWN.budget < 0 {
        if let Some(h) = OWN.hook {
            h();
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if OWN.guards == 0 {
        OWN.guards = a as usize;
        OWN.nguard = ((b as usize - a as usize) / 4) as u32;
    }
}
#[no_mangle]
pub unsafe extern "C" fn node_init(hook: extern "C" fn(), cov: *mut u8) {
    OWN.hook = Some(hook);
    OWN.cov = cov;
    if std::env::var_os("SIM_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
#[no_mangle]
pub unsafe extern "C" fn node_budget() -> *mut i64 {
    &raw mut OWN.budget
}
#[no_mangle]
pub unsafe extern "C" fn node_own() -> *mut Own {
    &raw mut OWN
}
#[no_mangle]
pub unsafe extern "C" fn node_nguard() -> u32 {
    OWN.nguard
}

// ---------------------------------------------------------------- allocator seam
#[repr(C)]
pub struct AllocHooks {
    pub alloc: extern "C" fn(usize, usize) -> *mut u8,
    pub free: extern "C" fn(*mut u8, usize, usize),
}
struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match OWN.alloc {
            Some(h) => (h.alloc)(l.size(), l.align()),
            None => std::alloc::System.alloc(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match OWN.alloc {
            Some(h) => (h.free)(p, l.size(), l.align()),
            None => std::alloc::System.dealloc(p, l),
        }
    }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;
#[no_mangle]
pub unsafe extern "C" fn node_set_alloc(h: *const AllocHooks) {
    OWN.alloc = if h.is_null() { None } else { Some(&*h) };
}

// ---------------------------------------------------------------- CPU seam
macro_rules! feats {
    ($($i:expr => $n:tt),* $(,)?) => {{
        let mut m = 0u64;
        $( if std::arch::is_x86_feature_detected!($n) { m |= 1 << $i; } )*
        m
    }};
}
/// Which CPU features the library would see now, in the order of `simctl::cpu::FEATURES`.
#[no_mangle]
pub extern "C" fn node_features() -> u64 {
    feats! {
        0 => "sse3", 1 => "ssse3", 2 => "sse4.1", 3 => "sse4.2", 4 => "popcnt", 5 => "avx", 6 => "avx2", 7 => "fma", 8 => "f16c",
        9 => "bmi1", 10 => "bmi2", 11 => "lzcnt", 12 => "avx512f", 13 => "avx512cd", 14 => "avx512bw", 15 => "avx512dq",
        16 => "avx512vl", 17 => "avx512ifma", 18 => "avx512vbmi", 19 => "avx512vbmi2", 20 => "avx512vnni", 21 => "avx512bitalg",
        22 => "avx512vpopcntdq", 23 => "avx512bf16", 24 => "avx512fp16", 25 => "avxvnni", 26 => "avxifma", 27 => "vaes",
        28 => "gfni", 29 => "vpclmulqdq", 30 => "avxneconvert", 31 => "avxvnniint8", 32 => "avxvnniint16",
    }
}
