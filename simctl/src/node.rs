//! The real library, loaded as a shared object, and the CPU-model seam.
use libc::*;
use std::ffi::CString;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RPlane {
    pub ptr: *mut u8,
    pub len: usize,
    pub stride: usize,
    pub row: usize,
    pub rows: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawCall {
    pub op: u32,
    pub nplanes: u32,
    pub w: [u32; 2],
    pub h: [u32; 2],
    pub range: u32,
    pub matrix: u32,
    pub mode: u32,
    pub flag: u32,
    pub depth: u32,
    pub order: u32,
    pub gamma: u32,
    pub geo: u32,
    pub kr: f32,
    pub kb: f32,
    pub own: u32,
    pub bad: u32,
    pub planes: [RPlane; 6],
    pub err: u64,
}
pub const STATUS_PANIC: i32 = 200;
pub const STATUS_OWN_CHECK: i32 = 210;
pub const STATUS_OWN_ROOM: i32 = 211;
pub const STATUS_CHECK: i32 = 212;
#[repr(C)]
pub struct AllocHooks {
    pub alloc: extern "C" fn(usize, usize) -> *mut u8,
    pub free: extern "C" fn(*mut u8, usize, usize),
}

pub struct Node {
    pub call: unsafe extern "C" fn(*mut RawCall) -> i32,
    pub nested: Option<crate::sched::Nested>,
    pub budget: *mut i64,
    pub set_alloc: unsafe extern "C" fn(*const AllocHooks),
    pub features: extern "C" fn() -> u64,
    pub nguard: usize,
    /// address range of the shared object
    pub text: (usize, usize),
    /// writable pages of the library without the seams' own
    pub data: Vec<(usize, usize)>,
    /// std_detect's cache inside the shared object: (word address, bit) of every feature of `FEATURES`, when found
    bits: Vec<Option<(*mut u64, u64)>>,
    pub host: u64,
}

pub const FEATURES: [&str; 33] = [
    "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "fma", "f16c", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512cd",
    "avx512bw", "avx512dq", "avx512vl", "avx512ifma", "avx512vbmi", "avx512vbmi2", "avx512vnni", "avx512bitalg",
    "avx512vpopcntdq", "avx512bf16", "avx512fp16", "avxvnni", "avxifma", "vaes", "gfni", "vpclmulqdq", "avxneconvert",
    "avxvnniint8", "avxvnniint16",
];
fn mask(names: &[&str]) -> u64 {
    names.iter().map(|n| 1u64 << FEATURES.iter().position(|f| f == n).unwrap()).sum()
}

/// The CPU models of the simulated fleet; a check uses those whose features the host has.
pub struct Cpu {
    pub name: &'static str,
    pub mask: u64,
}
pub fn cpu_models() -> Vec<Cpu> {
    let sse = ["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"];
    let avx = ["avx", "f16c"];
    let avx2 = ["avx2", "fma", "bmi1", "bmi2", "lzcnt"];
    let skx = ["avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl"];
    let icl = ["avx512ifma", "avx512vbmi", "avx512vbmi2", "avx512bitalg", "avx512vpopcntdq", "vaes", "gfni", "vpclmulqdq"];
    let m = |v: &[&[&str]]| v.iter().map(|x| mask(x)).sum::<u64>();
    vec![
        Cpu { name: "x86-64", mask: 0 },
        Cpu { name: "nehalem", mask: m(&[&sse]) },
        Cpu { name: "ivybridge", mask: m(&[&sse, &avx]) },
        Cpu { name: "haswell", mask: m(&[&sse, &avx, &avx2]) },
        Cpu { name: "skylake-x", mask: m(&[&sse, &avx, &avx2, &skx]) },
        Cpu { name: "cascadelake", mask: m(&[&sse, &avx, &avx2, &skx, &["avx512vnni"]]) },
        Cpu { name: "cannonlake", mask: m(&[&sse, &avx, &avx2, &skx, &["avx512ifma", "avx512vbmi"]]) },
        Cpu { name: "icelake", mask: m(&[&sse, &avx, &avx2, &skx, &icl, &["avx512vnni"]]) },
        Cpu { name: "alderlake", mask: m(&[&sse, &avx, &avx2, &["avxvnni", "vaes", "gfni", "vpclmulqdq"]]) },
        Cpu { name: "sapphirerapids", mask: m(&[&sse, &avx, &avx2, &skx, &icl, &["avx512vnni", "avxvnni", "avx512bf16", "avx512fp16"]]) },
    ]
}

/// What the library can make of a CPU in a build: 0 everything, 1 the default features, 2 no back ends.
pub fn serves(build: usize, cpu: u64) -> u64 {
    let old = mask(&["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "fma", "bmi1", "bmi2", "lzcnt"]);
    match build {
        0 => cpu & !mask(&["vaes", "gfni", "vpclmulqdq"]),
        1 => cpu & old,
        _ => 0,
    }
}

unsafe fn sym<T: Copy>(h: *mut c_void, n: &str) -> T {
    let c = CString::new(n).unwrap();
    let p = dlsym(h, c.as_ptr());
    assert!(!p.is_null(), "symbol {n}");
    *(&p as *const *mut c_void as *const T)
}

impl Node {
    pub unsafe fn load(path: &str, hook: extern "C" fn(), cov: *mut u8) -> Node {
        let c = CString::new(path).unwrap();
        let h = dlopen(c.as_ptr(), RTLD_NOW | RTLD_LOCAL);
        if h.is_null() {
            panic!("dlopen {path}: {:?}", std::ffi::CStr::from_ptr(dlerror()));
        }
        let init: unsafe extern "C" fn(extern "C" fn(), *mut u8) = sym(h, "node_init");
        init(hook, cov);
        let budget: unsafe extern "C" fn() -> *mut i64 = sym(h, "node_budget");
        let nguard: unsafe extern "C" fn() -> u32 = sym(h, "node_nguard");
        let call: unsafe extern "C" fn(*mut RawCall) -> i32 = sym(h, "node_call");
        let nested = dlsym(h, c"node_nested".as_ptr());
        let mut n = Node {
            call,
            nested: if nested.is_null() { None } else { Some(sym(h, "node_nested")) },
            budget: budget(),
            set_alloc: sym(h, "node_set_alloc"),
            features: sym(h, "node_features"),
            nguard: nguard() as usize,
            text: (0, 0),
            data: vec![],
            bits: vec![],
            host: 0,
        };
        n.host = (n.features)();
        let mut info: Dl_info = std::mem::zeroed();
        dladdr(call as *const c_void, &mut info);
        let own: unsafe extern "C" fn() -> *mut c_void = sym(h, "node_own");
        let own = own() as usize;
        let (a, b) = elf_data(path);
        let (a, b) = (info.dli_fbase as usize + a, info.dli_fbase as usize + b);
        assert!(own % 4096 == 0 && a <= own && own + 4096 <= b);
        n.data = [(a, own - a), (own + 4096, b - own - 4096)].into_iter().filter(|x| x.1 > 0).collect();
        n.text = (info.dli_fbase as usize, info.dli_fbase as usize + elf_size(path));
        let words = elf_symbol(path, "std_detect", "5CACHE").map(|v| (info.dli_fbase as usize + v) as *mut u64);
        n.bits = vec![None; FEATURES.len()];
        if let Some(w) = words {
            for i in 0..3 {
                let p = w.add(i);
                for b in 0..63 {
                    let m = 1u64 << b;
                    if *p & m == 0 {
                        continue;
                    }
                    *p &= !m;
                    let now = (n.features)();
                    *p |= m;
                    let lost = n.host & !now;
                    if lost.count_ones() == 1 {
                        n.bits[lost.trailing_zeros() as usize] = Some((p, m));
                    }
                }
            }
            assert!((n.features)() == n.host);
        }
        n
    }
    /// CPU models this host can play.
    pub fn models(&self) -> Vec<Cpu> {
        let can = |m: &Cpu| (0..FEATURES.len()).all(|i| (m.mask >> i & 1 == 0 || self.host >> i & 1 == 1) && (m.mask >> i & 1 == 1 || self.host >> i & 1 == 0 || self.bits[i].is_some()));
        cpu_models().into_iter().filter(can).collect()
    }
    pub unsafe fn set_cpu(&self, mask: u64) {
        for i in 0..FEATURES.len() {
            if let Some((p, m)) = self.bits[i] {
                if mask >> i & 1 == 1 {
                    *p |= m
                } else {
                    *p &= !m
                }
            }
        }
    }
}

/// Value of the first object symbol of the ELF file whose name has both substrings.
fn elf_symbol(path: &str, a: &str, b: &str) -> Option<usize> {
    let d = map_file(path);
    let u = |o: usize, n: usize| d[o..o + n].iter().rev().fold(0usize, |x, y| x << 8 | *y as usize);
    let (shoff, shent, shnum) = (u(0x28, 8), u(0x3a, 2), u(0x3c, 2));
    for s in 0..shnum {
        let o = shoff + s * shent;
        if u(o + 4, 4) == 2 {
            let (off, size, link) = (u(o + 24, 8), u(o + 32, 8), u(o + 40, 4));
            let stro = u(shoff + link * shent + 24, 8);
            for k in 0..size / 24 {
                let e = off + k * 24;
                let n0 = stro + u(e, 4);
                let n1 = n0 + d[n0..].iter().position(|c| *c == 0)?;
                let name = std::str::from_utf8(&d[n0..n1]).unwrap_or("");
                if name.contains(a) && name.contains(b) {
                    return Some(u(e + 8, 8));
                }
            }
        }
    }
    None
}

/// Extent of the loaded image.
fn elf_size(path: &str) -> usize {
    let d = map_file(path);
    let u = |o: usize, n: usize| d[o..o + n].iter().rev().fold(0usize, |x, y| x << 8 | *y as usize);
    let (off, ent, n) = (u(0x20, 8), u(0x36, 2), u(0x38, 2));
    (0..n).map(|i| off + i * ent).filter(|o| u(*o, 4) == 1).map(|o| u(o + 16, 8) + u(o + 40, 8)).max().unwrap()
}

/// Pages of the image that stay writable once it is loaded.
fn elf_data(path: &str) -> (usize, usize) {
    let d = map_file(path);
    let u = |o: usize, n: usize| d[o..o + n].iter().rev().fold(0usize, |x, y| x << 8 | *y as usize);
    let (off, ent, n) = (u(0x20, 8), u(0x36, 2), u(0x38, 2));
    let end = |o: usize| u(o + 16, 8) + u(o + 40, 8);
    let seg = |f: &dyn Fn(usize) -> bool| (0..n).map(|i| off + i * ent).filter(|o| f(*o)).collect::<Vec<_>>();
    let relro = seg(&|o| u(o, 4) == 0x6474e552).into_iter().map(end).max().unwrap_or(0);
    let rw = seg(&|o| u(o, 4) == 1 && u(o + 4, 4) & 2 != 0);
    let a = rw.iter().map(|o| u(o + 16, 8)).min().unwrap();
    let b = rw.iter().map(|o| end(*o)).max().unwrap();
    ((a / 4096 * 4096).max(relro.div_ceil(4096) * 4096), b.div_ceil(4096) * 4096)
}

/// Read-only view of a file (not on the heap: every page this process has dirtied makes its forks dearer).
fn map_file(path: &str) -> &'static [u8] {
    unsafe {
        let c = CString::new(path).unwrap();
        let fd = open(c.as_ptr(), O_RDONLY);
        let n = lseek(fd, 0, SEEK_END) as usize;
        let p = mmap(std::ptr::null_mut(), n, PROT_READ, MAP_PRIVATE, fd, 0);
        assert!(p != MAP_FAILED, "{path}");
        close(fd);
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
