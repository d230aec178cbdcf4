//! Calls as data, their buffers in the arena, and the reference: the same call alone in a pristine simulated process.
use crate::arena::*;
use crate::node::*;
use crate::ops::*;
use crate::prng::*;
use crate::sched;
use crate::spec::*;

#[derive(Clone, Debug, PartialEq)]
pub struct PArg {
    /// in elements
    pub stride: u32,
    pub len: u32,
    /// 0 = ends at the inaccessible page, 1 = starts after one, 2 = in the middle, at `off`, 3 = the first row ends with a page
    pub place: u8,
    pub off: u32,
    /// what the buffer holds before the call (destinations): 0 zero, 1 ones, 2.. random
    pub stale: u8,
    /// source planes may be the very buffer of another call: (call, plane)
    pub share: Option<(u8, u8)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub op: usize,
    pub w: [u32; 2],
    pub h: [u32; 2],
    pub range: u32,
    pub matrix: u32,
    pub mode: u32,
    pub flag: u32,
    pub depth: u32,
    pub order: u32,
    pub gamma: u32,
    pub geo: u32,
    pub custom: u32,
    /// 1: sources, 2: destinations are images that the library allocated; 4: check_constraints is asked; 8: views by from_mut
    pub own: u32,
    pub content: u32,
    pub seed: u64,
    pub pl: Vec<PArg>,
}

/// Where a plane lives in the arena.
#[derive(Clone, Copy, Debug)]
pub struct Buf {
    pub slot: usize,
    pub off: usize,
    pub bytes: usize,
    pub stride: usize,
    pub row: usize,
    pub rows: usize,
}
impl Buf {
    pub fn ptr(&self) -> *mut u8 {
        unsafe { slot(self.slot).add(self.off) }
    }
    pub fn data(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.bytes) }
    }
    /// byte `i` of the buffer belongs to the image
    pub fn is_pixel(&self, i: usize) -> bool {
        self.stride != 0 && i / self.stride < self.rows && i % self.stride < self.row
    }
    /// Every row ends with a page and the next page is all padding: writes into it can be made to fault.
    pub fn padding_pages(&self) -> Vec<usize> {
        if self.stride < self.row + PAGE || self.stride % PAGE != 0 || (self.off + self.row) % PAGE != 0 {
            return vec![];
        }
        (0..self.rows).map(|y| self.off + y * self.stride + self.row).filter(|o| o + PAGE <= self.off + self.bytes).collect()
    }
    /// pages of the slot that hold the buffer
    pub fn span(&self) -> (usize, usize) {
        let a = self.off / PAGE * PAGE;
        let b = (self.off + self.bytes).div_ceil(PAGE) * PAGE;
        (a, b.max(a + PAGE).min(SLOT))
    }
}

pub const CUSTOM: [(f32, f32); 6] = [(0.299, 0.114), (0.2126, 0.0722), (0.2627, 0.0593), (0.22, 0.07), (0.3, 0.11), (0.25, 0.1)];
/// weights of red and blue: a few that are near the standards or share one of the two, and any with three digits
pub fn custom(i: u32) -> (f32, f32) {
    if (i as usize) < CUSTOM.len() {
        return CUSTOM[i as usize];
    }
    let k = [0.299, 0.2126, 0.2627, 0.114, 0.0722, 0.0593];
    let h = mix(i as u64, 77);
    let any = |h: u64, a: u64, n: u64| (a + h % n) as f32 / 1000.;
    match i % 4 {
        0 => (k[(h % 3) as usize], k[(3 + h / 8 % 3) as usize]),
        1 => (k[(h % 3) as usize], any(h >> 8, 55, 65)),
        2 => (any(h, 200, 110), k[(3 + h / 8 % 3) as usize]),
        _ => (any(h, 200, 110), any(h >> 16, 55, 65)),
    }
}

impl Call {
    pub fn spec(&self) -> &'static Op {
        &OPS[self.op]
    }
    pub fn geom(&self, p: usize) -> (usize, usize) {
        self.spec().geom(p, self.w, self.h, self.geo)
    }
    /// the plane belongs to a YUV image, not to a plain slice
    pub fn is_image(&self, p: usize) -> bool {
        let (o, s) = (self.spec(), &self.spec().planes[p]);
        o.has_image() && (s.ch <= 2 || s.packed || (o.fam == "ayuv" && s.role == Role::Src))
    }
    /// strides and lengths of the tightest well-formed planes
    pub fn set_default_planes(&mut self) {
        self.pl = (0..self.spec().planes.len())
            .map(|p| {
                let (r, n) = self.geom(p);
                PArg { stride: r as u32, len: (r * n) as u32, place: 0, off: 0, stale: 2, share: None }
            })
            .collect();
    }
    pub fn set_stride(&mut self, p: usize, extra: usize) {
        let (r, n) = self.geom(p);
        self.pl[p].stride = (r + extra) as u32;
        self.pl[p].len = ((r + extra) * n) as u32;
    }
    pub fn plane_bytes(&self, p: usize) -> usize {
        self.pl[p].len as usize * self.spec().planes[p].elem.size()
    }
    /// planes can be padded at will: the library accepts it
    pub fn can_pad(&self, p: usize) -> bool {
        let s = &self.spec().planes[p];
        !(s.packed || (s.ch == 2 && (self.spec().fam == "nv8" || self.spec().fam == "pxxx" || self.spec().fam == "planar_ar30")))
    }
    pub fn buf(&self, p: usize, slot_no: usize) -> Buf {
        let s = &self.spec().planes[p];
        let e = s.elem.size();
        let (r, n) = self.geom(p);
        let bytes = self.plane_bytes(p);
        let a = &self.pl[p];
        let off = match a.place {
            0 => SLOT - bytes,
            1 => 0,
            3 if r * e <= PAGE => (PAGE - r * e).min(SLOT - bytes),
            _ => (PAGE + a.off as usize * e).min((SLOT - bytes) / 2 * 2),
        };
        Buf { slot: slot_no, off, bytes, stride: a.stride as usize * e, row: r * e, rows: n }
    }
    pub fn raw(&self, bufs: &[Buf]) -> RawCall {
        let mut c: RawCall = unsafe { std::mem::zeroed() };
        c.op = self.op as u32;
        c.nplanes = bufs.len() as u32;
        c.w = self.w;
        c.h = self.h;
        c.range = self.range;
        c.matrix = self.matrix;
        c.mode = self.mode;
        c.flag = self.flag;
        c.depth = self.depth;
        c.order = self.order;
        c.gamma = self.gamma;
        c.geo = self.geo;
        let k = custom(self.custom);
        c.kr = k.0;
        c.kb = k.1;
        c.own = self.own;
        for p in 0..bufs.len() {
            let (row, rows) = self.geom(p);
            let a = &self.pl[p];
            if self.is_image(p) && ((a.stride as usize) < row || (a.len as usize) < a.stride as usize * (rows - 1) + row) {
                c.bad |= 1 << self.spec().planes[p].img;
            }
        }
        for (i, b) in bufs.iter().enumerate() {
            let e = self.spec().planes[i].elem.size();
            c.planes[i] = RPlane { ptr: b.ptr(), len: b.bytes / e, stride: self.pl[i].stride as usize, row: self.geom(i).0, rows: self.geom(i).1 };
        }
        c
    }
    /// initial content of plane `p`
    pub fn content(&self, p: usize) -> Vec<u8> {
        let s = &self.spec().planes[p];
        let n = self.plane_bytes(p);
        if s.role == Role::Dst {
            return stale(self.pl[p].stale, mix(self.seed, 1000 + p as u64), n);
        }
        source(self, p, n)
    }
}
pub fn stale(class: u8, seed: u64, n: usize) -> Vec<u8> {
    match class {
        0 => vec![0; n],
        1 => vec![0xff; n],
        c => random_bytes(mix(seed, c as u64), n),
    }
}
pub fn random_bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}
/// content classes: 0 random valid samples, 1 smooth, 2 extremes, 3 any bit pattern, 4 constant, 5 runs and repeated rows, 6 one
/// telling value with rare exceptions
fn source(c: &Call, p: usize, n: usize) -> Vec<u8> {
    let s = &c.spec().planes[p];
    if c.content >= 8 {
        // the same, but for a sample or two
        let mut d = c.clone();
        d.content &= 7;
        let mut v = source(&d, p, n);
        let mut r = Rng::new(mix(mix(c.seed, c.content as u64), p as u64));
        let e = s.elem.size();
        // (the same ones when a plane is cut short or too long)
        let full = (c.pl[p].stride as usize * c.geom(p).1).max(1);
        for _ in 0..r.below(3) {
            let (a, b) = (r.below(full) * e, r.below(full) * e);
            let copy = r.chance(1, 2);
            if a + e > n {
                continue;
            }
            if copy && b + e <= a {
                v.copy_within(b..b + e, a);
            } else {
                v[a..a + e].fill(0);
            }
        }
        return v;
    }
    if c.content == 5 {
        let mut d = c.clone();
        d.content = if c.seed & 1 == 0 { 0 } else { 2 };
        let mut v = source(&d, p, n);
        let mut r = Rng::new(mix(c.seed, 500 + p as u64));
        let e = s.elem.size();
        let st = c.pl[p].stride.max(1) as usize * e;
        let px = e * if s.packed { 4 } else { s.ch.max(1) as usize };
        for y in 0..n.div_ceil(st) {
            let (a, b) = (y * st, (y * st + st).min(n));
            match r.below(4) {
                // the row before once more
                0 | 1 if y > 0 => {
                    let (h, t) = v.split_at_mut(a);
                    t[..b - a].copy_from_slice(&h[a - st..a - st + b - a]);
                }
                // runs of the same pixel
                2 => {
                    let mut x = a + px;
                    while x + px <= b {
                        let k = r.pick(&[1usize, 2, 4, 8, 16, 33]);
                        for _ in 0..k {
                            if x + px <= b {
                                v.copy_within(x - px..x, x);
                                x += px;
                            }
                        }
                        x += px * r.range(1, 4);
                    }
                }
                _ => {}
            }
        }
        return v;
    }
    if c.content == 6 {
        let mut d = c.clone();
        d.content = 0;
        let mut v = source(&d, p, n);
        let mut r = Rng::new(mix(c.seed, 600 + p as u64));
        let bits = if c.spec().has(DEPTH) && s.elem == Elem::U16 { c.depth } else { s.bits };
        let every = r.pick(&[5usize, 20, 100, 100000]);
        let (max, k) = (((1u32 << bits) - 1) as u16, bits.max(8) - 8);
        let t = match s.elem {
            Elem::U8 => [0u16, 255, 128, 16, 235, 1][r.below(6)],
            Elem::F16 => [0u16, 0x3c00, 0x3800, 1][r.below(4)],
            Elem::I16 => [0u16, 4095, -4096i16 as u16, 1][r.below(4)],
            _ => {
                let t: u16 = [0, max, 128 << k, 16 << k, 235 << k, 1][r.below(6)];
                if s.msb { t << (16 - bits) } else { t }
            }
        };
        let t = if s.be { t.swap_bytes() } else { t };
        let e = s.elem.size();
        for q in v.chunks_exact_mut(e) {
            if r.below(every) != 0 {
                q.copy_from_slice(&t.to_le_bytes()[..e]);
            }
        }
        return v;
    }
    let seed = mix(c.seed, p as u64);
    let mut r = Rng::new(seed);
    if s.elem == Elem::U8 {
        return match c.content {
            1 => {
                let (a, b, st) = (r.below(256), r.below(7), c.pl[p].stride.max(1) as usize);
                (0..n).map(|i| (a + (i % st) * b / 2 + (i / st) * 3 + (r.next() as usize & 3)) as u8).collect()
            }
            2 => (0..n).map(|_| [0u8, 255, 255, 0, 16, 235, 240, 128, 1, 254, 127, 129][r.below(12)]).collect(),
            4 => vec![r.next() as u8; n],
            _ => random_bytes(seed, n),
        };
    }
    let bits = if c.spec().has(DEPTH) && s.elem == Elem::U16 { c.depth } else { s.bits };
    let max = (1u32 << bits) - 1;
    let mut out = Vec::with_capacity(n);
    let k = r.next() as u32;
    for i in 0..n / 2 {
        let st = c.pl[p].stride.max(1) as usize;
        let v: u16 = match s.elem {
            Elem::F16 => match c.content {
                // binary16 in [0, 1]: bit patterns 0..=0x3c00
                1 => ((k % 0x2000) as usize + (i % st) * 9 + (i / st) * 5) as u16 % 0x3c01,
                2 => [0u16, 0x3c00, 0x3800, 0x0001][r.below(4)],
                3 => r.next() as u16,
                4 => (k % 0x3c01) as u16,
                _ => (r.below(0x3c01)) as u16,
            },
            Elem::I16 => match c.content {
                // RemoteFX samples: 13-bit fixed point around zero
                2 => [-4096i16, 4095, 0, -1][r.below(4)] as u16,
                3 => r.next() as u16,
                4 => (k % 8192) as u16,
                _ => (r.below(8192) as i32 - 4096) as i16 as u16,
            },
            _ => {
                let v = match c.content {
                    1 => (k as usize % (max as usize + 1) + (i % st) * 3 + (i / st) * 5) as u32 & max,
                    2 => [0, max, 0, max, max / 2, max / 2 + 1, max - 1, 1, 16 << (bits - 8), 235 << (bits - 8), 240 << (bits - 8)][r.below(11)],
                    3 => r.next() as u32 & 0xffff,
                    4 => k & max,
                    _ => r.next() as u32 & max,
                };
                let v = if c.content == 3 { v as u16 } else if s.msb { (v << (16 - bits)) as u16 } else { v as u16 };
                if s.be && c.content != 3 { v.swap_bytes() } else { v }
            }
        };
        out.extend_from_slice(&v.to_le_bytes());
    }
    out
}

static mut PATTERN: [u8; PAGE] = [0; PAGE];
pub fn init_pattern() {
    let v = random_bytes(0xcafe, PAGE);
    unsafe { (&mut *(&raw mut PATTERN)).copy_from_slice(&v) };
}
fn pattern() -> &'static [u8; PAGE] {
    unsafe { &*(&raw const PATTERN) }
}
/// Puts `content` into the buffer and canaries around it, on every page of the slot that it touches.
pub fn place(b: &Buf, content: &[u8]) {
    let (a, e) = b.span();
    unsafe {
        let base = slot(b.slot);
        let mut o = a;
        while o < e {
            if !(o >= b.off && o + PAGE <= b.off + b.bytes) {
                std::ptr::copy_nonoverlapping(pattern().as_ptr(), base.add(o), PAGE);
            }
            o += PAGE;
        }
        std::ptr::copy_nonoverlapping(content.as_ptr(), b.ptr(), b.bytes);
    }
}
/// Offset (in the slot) of the first canary byte that changed.
pub fn canary(b: &Buf) -> Option<usize> {
    let (a, e) = b.span();
    let base = unsafe { std::slice::from_raw_parts(slot(b.slot), SLOT) };
    let bad = |x: usize, y: usize| {
        let mut o = x;
        while o < y {
            let n = (PAGE - o % PAGE).min(y - o);
            if base[o..o + n] != pattern()[o % PAGE..o % PAGE + n] {
                return (o..o + n).find(|i| base[*i] != pattern()[i % PAGE]);
            }
            o += n;
        }
        None
    };
    bad(a, b.off).or_else(|| bad(b.off + b.bytes, e))
}

/// What the call does alone, in a pristine process.
#[derive(Clone)]
pub struct Ref {
    pub exit: i32,
    pub status: i32,
    pub err: u64,
    pub steps: u64,
    pub allocs: u32,
    /// content of every destination plane afterwards (empty for sources)
    pub out: Vec<Vec<u8>>,
}
pub const REF_SLOT: usize = NSLOT - 8;

/// `src`: content of the source planes, when not their own.
pub fn reference(node: &Node, c: &Call, cpu: u64, stale_class: Option<u8>, src: &[Option<Vec<u8>>]) -> Ref {
    let n = c.spec().planes.len();
    let mut cc = c.clone();
    for p in cc.pl.iter_mut() {
        p.place = 0;
        p.share = None;
    }
    cc.own = 0;
    let bufs: Vec<Buf> = (0..n).map(|p| cc.buf(p, REF_SLOT + p)).collect();
    for p in 0..n {
        let v = match stale_class {
            Some(k) if c.spec().planes[p].role == Role::Dst => stale(k, mix(c.seed, 4000 + p as u64), bufs[p].bytes),
            _ => match src.get(p) {
                Some(Some(v)) => v.clone(),
                _ => c.content(p),
            },
        };
        place(&bufs[p], &v);
    }
    let exit = unsafe { sched::run_solo(node, &cc.raw(&bufs), cpu) };
    let r = sched::report();
    let k = &r.call[0];
    Ref {
        exit,
        status: k.status,
        err: k.err,
        steps: k.steps,
        allocs: k.allocs,
        out: (0..n).map(|p| if c.spec().planes[p].role == Role::Dst { bufs[p].data().to_vec() } else { vec![] }).collect(),
    }
}
pub fn op_index(name: &str) -> Option<usize> {
    OPS.iter().position(|o| o.name == name)
}

