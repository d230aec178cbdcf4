//! What each conversion means: a small executable model in real numbers, written from the function's name and the
//! published definitions (ITU-T H.273 matrices and ranges, YCgCo, RemoteFX), not from the library's code.
use crate::spec::*;
use crate::world::*;

/// What the samples of an image mean.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Rgb,
    Gbr,
    Yuv,
    Cgco,
    Rdp,
    /// planes that are only moved or requantised
    Raw,
}
/// One side of an operation: which component each element of each plane is. Components: R G B A, or Y U V A.
#[derive(Clone, Debug)]
pub struct Side {
    pub kind: Kind,
    /// indices into `Op::planes`
    pub planes: Vec<usize>,
    /// per plane, per element of a pixel (or of a pair of pixels in packed 4:2:2)
    pub order: Vec<Vec<usize>>,
    /// 32-bit words of three 10-bit channels: components from the lowest bits up; alpha in the highest (false) or lowest bits (true)
    pub word: Option<([usize; 3], bool)>,
}
/// One component of an image: `w`x`h` values
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Comp {
    pub w: usize,
    pub h: usize,
    /// value that stands for 1.0 of an R, G, B or A component; 2^bits - 1 otherwise
    pub max: f64,
    pub bits: u32,
    pub v: Vec<f64>,
}
impl Comp {
    fn at(&self, x: usize, y: usize) -> f64 {
        self.v[y * self.w + x]
    }
}
pub type Frame = [Option<Comp>; 4];

fn letters(t: &str) -> Option<Vec<usize>> {
    let n = t.find(|c: char| !c.is_ascii_lowercase()).unwrap_or(t.len());
    let o: Option<Vec<usize>> = t[..n].chars().map(|c| match c { 'r' => Some(0), 'g' => Some(1), 'b' => Some(2), 'a' => Some(3), _ => None }).collect();
    o.filter(|o| o.len() == 3 || o.len() == 4)
}
/// the meaning of one side of `op`
pub fn side(op: &Op, role: Role) -> Option<Side> {
    let planes: Vec<usize> = (0..op.planes.len()).filter(|p| op.planes[*p].role == role).collect();
    if op.fam == "mirror" || op.fam == "rotate" {
        let n = op.planes[planes[0]].ch;
        return Some(Side { kind: Kind::Raw, planes, order: vec![(0..n).collect()], word: None });
    }
    let (a, b) = op.name.split_once("_to_")?;
    let mut t = if role == Role::Src { a } else { b };
    t = t.strip_prefix("convert_").unwrap_or(t);
    let rdp = op.fam == "rdp";
    t = t.strip_prefix("rdp_").unwrap_or(t);
    t = t.strip_prefix("sharp_").unwrap_or(t);
    t = t.strip_prefix("yuv_").unwrap_or(t);
    let single = |kind, o: Vec<usize>| Some(Side { kind, planes: planes.clone(), order: vec![o], word: None });
    if t.starts_with("plane") || t.starts_with("planar") {
        return single(Kind::Raw, vec![0]);
    }
    let word = match t {
        "ar30" => Some(([0, 1, 2], false)),
        "ab30" => Some(([2, 1, 0], false)),
        "ra30" => Some(([2, 1, 0], true)),
        "ba30" => Some(([0, 1, 2], true)),
        _ => None,
    };
    if word.is_some() {
        return Some(Side { kind: Kind::Rgb, planes, order: vec![vec![0, 1, 2, 3]], word });
    }
    if t.starts_with("gbr") || t.starts_with("gb1") {
        let order = [1, 2, 0, 3][..planes.len()].iter().map(|c| vec![*c]).collect();
        return Some(Side { kind: Kind::Gbr, planes, order, word: None });
    }
    if let (1, Some(o)) = (planes.len(), letters(t)) {
        return single(Kind::Rgb, o);
    }
    if t == "f16" {
        return Some(Side { planes, ..side(op, if role == Role::Src { Role::Dst } else { Role::Src })? });
    }
    let pk: Option<Vec<usize>> = match t.get(..4).unwrap_or("") {
        "yuyv" => Some(vec![0, 1, 0, 2]),
        "yvyu" => Some(vec![0, 2, 0, 1]),
        "uyvy" => Some(vec![1, 0, 2, 0]),
        "vyuy" => Some(vec![2, 0, 1, 0]),
        "ayuv" => Some(vec![3, 0, 1, 2]),
        "vyua" => Some(vec![2, 1, 0, 3]),
        _ => None,
    };
    if let Some(o) = pk {
        return single(Kind::Yuv, o);
    }
    let kind = if rdp {
        Kind::Rdp
    } else if t.contains("cgc") {
        Kind::Cgco
    } else {
        Kind::Yuv
    };
    if t.starts_with("nv") || t.starts_with('p') {
        let vu = ["nv21", "nv61", "nv42"].contains(&t);
        return Some(Side { kind, planes, order: vec![vec![0], if vu { vec![2, 1] } else { vec![1, 2] }], word: None });
    }
    if t.starts_with("yuv400") || t.starts_with("y0") {
        let order = if planes.len() == 2 { vec![vec![0], vec![3]] } else { vec![vec![0]] };
        return Some(Side { kind, planes, order, word: None });
    }
    (planes.len() == 3 || planes.len() == 4).then(|| Side { kind, order: (0..planes.len()).map(|c| vec![c]).collect(), planes, word: None })
}
fn bits(c: &Call, p: usize) -> u32 {
    let s = &c.spec().planes[p];
    if c.spec().has(DEPTH) && s.elem == Elem::U16 { c.depth } else { s.bits }
}
fn size(c: &Call, p: usize) -> (usize, usize) {
    let (mut w, mut h) = (c.w[c.spec().planes[p].img] as usize, c.h[c.spec().planes[p].img] as usize);
    if c.spec().has(ROTATE) && c.spec().planes[p].role == Role::Dst && c.geo != 1 {
        std::mem::swap(&mut w, &mut h);
    }
    (w, h)
}
/// Where component `k` of plane `i` of side `s` lies: for every value (x, y) the position in the plane's samples (padding left out)
fn walk(c: &Call, s: &Side, i: usize, k: usize, mut f: impl FnMut(usize, usize, usize, usize, usize)) {
    let p = s.planes[i];
    let sp = &c.spec().planes[p];
    let (w, h) = size(c, p);
    let (rw, rows) = c.geom(p);
    let n = s.order[i].len();
    if sp.packed {
        let cw = if k == 0 { w } else { w.div_ceil(2) };
        for y in 0..h {
            for x in 0..cw {
                let e = if k == 0 { (0..4).filter(|e| s.order[i][*e] == 0).nth(x & 1).unwrap() } else { (0..4).find(|e| s.order[i][*e] == k).unwrap() };
                f(cw, h, x, y, y * rw + if k == 0 { x / 2 } else { x } * 4 + e);
            }
        }
        return;
    }
    let cw = rw / n;
    let e = s.order[i].iter().position(|e| *e == k).unwrap();
    for y in 0..rows {
        for x in 0..cw {
            f(cw, rows, x, y, y * rw + x * n + e);
        }
    }
}
fn comps(s: &Side, i: usize) -> Vec<usize> {
    let mut v = s.order[i].clone();
    v.sort();
    v.dedup();
    v
}
/// Samples of plane `p`, padding left out, as numbers; 32-bit words give four per pixel.
pub fn numbers(c: &Call, p: usize, data: &[u8], word: Option<([usize; 3], bool)>) -> Vec<f64> {
    let s = &c.spec().planes[p];
    let (rw, rows) = c.geom(p);
    let (st, e) = (c.pl[p].stride as usize, s.elem.size());
    let mut v = Vec::with_capacity(rw * rows);
    for y in 0..rows {
        let row = &data[y * st * e..(y * st + rw) * e];
        if let Some((o, low)) = word {
            for q in row.chunks_exact(4) {
                let q = [q[0], q[1], q[2], q[3]];
                let w = if c.order == 0 { u32::from_le_bytes(q) } else { u32::from_be_bytes(q) };
                let mut x = [0f64; 4];
                for k in 0..3 {
                    x[o[k]] = (w >> (if low { 2 } else { 0 } + 10 * k) & 1023) as f64;
                }
                x[3] = if low { w & 3 } else { w >> 30 } as f64;
                v.extend_from_slice(&x);
            }
        } else if e == 1 {
            v.extend(row.iter().map(|b| *b as f64));
        } else {
            for q in row.chunks_exact(2) {
                let x = if s.be { u16::from_be_bytes([q[0], q[1]]) } else { u16::from_le_bytes([q[0], q[1]]) };
                v.push(match s.elem {
                    Elem::I16 => x as i16 as f64,
                    Elem::F16 => half(x),
                    _ if s.msb => (x >> (16 - bits(c, p))) as f64,
                    _ => x as f64,
                });
            }
        }
    }
    v
}
pub fn half(x: u16) -> f64 {
    let (e, m) = ((x >> 10 & 31) as i32, (x & 1023) as f64);
    let v = match e {
        0 => m * 2f64.powi(-24),
        31 => f64::INFINITY,
        _ => (1024. + m) * 2f64.powi(e - 25),
    };
    if x >> 15 != 0 { -v } else { v }
}
fn top(c: &Call, p: usize, k: usize, word: bool) -> (f64, u32) {
    if word {
        return if k == 3 { (3., 2) } else { (1023., 10) };
    }
    if c.spec().planes[p].elem == Elem::F16 {
        return (1., 0);
    }
    let b = bits(c, p);
    (((1u64 << b) - 1) as f64, b)
}
/// The components of one side of `c`, `data` giving the bytes of its planes.
pub fn read(c: &Call, s: &Side, data: &[&[u8]]) -> Frame {
    let mut f: Frame = Default::default();
    for i in 0..s.planes.len() {
        let p = s.planes[i];
        if data[i].is_empty() {
            continue;
        }
        let v = numbers(c, p, data[i], s.word);
        for k in comps(s, i) {
            let (max, bits) = top(c, p, k, s.word.is_some());
            let mut o = Comp { max, bits, ..Default::default() };
            walk(c, s, i, k, |w, h, _, _, at| {
                (o.w, o.h) = (w, h);
                o.v.push(v[at]);
            });
            f[k] = Some(o);
        }
    }
    f
}
/// bias and scale of luma, bias and scale of chroma, for `bits`
fn ranges(limited: bool, bits: u32) -> (f64, f64, f64, f64) {
    let m = ((1u64 << bits) - 1) as f64;
    let mid = (1u64 << (bits - 1)) as f64;
    let k = (1u64 << (bits - 8)) as f64;
    if limited { (16. * k, 219. * k, mid, 224. * k) } else { (0., m, mid, m) }
}
/// Kr, Kb (ITU-T H.273 table 4)
fn weights(c: &Call) -> (f64, f64) {
    match c.matrix {
        0 => (0.299, 0.114),
        1 => (0.2126, 0.0722),
        2 => (0.2627, 0.0593),
        3 => (0.212, 0.087),
        4 => (0.222, 0.0713),
        5 => (0.3, 0.11),
        _ => {
            let k = custom(c.custom);
            (k.0 as f64, k.1 as f64)
        }
    }
}
/// The frame the call has to produce, component by component, from the frame it was given; not rounded.
pub fn apply(c: &Call, f: &Frame, a: &Side, b: &Side, shape: &Frame) -> Frame {
    let op = c.spec();
    let mut o: Frame = Default::default();
    if op.fam == "mirror" || op.fam == "rotate" {
        for k in 0..4 {
            let (Some(x), Some(s)) = (&f[k], &shape[k]) else { continue };
            let mut d = s.clone();
            for y in 0..d.h {
                for i in 0..d.w {
                    let (sx, sy) = match (op.fam, c.geo) {
                        ("mirror", 0) => (i, x.h - 1 - y),
                        ("mirror", _) => (x.w - 1 - i, y),
                        // counterclockwise, as the library's portable code has it
                        (_, 0) => (x.w - 1 - y, i),
                        (_, 1) => (x.w - 1 - i, x.h - 1 - y),
                        (_, _) => (y, x.h - 1 - i),
                    };
                    d.v[y * d.w + i] = x.at(sx, sy);
                }
            }
            o[k] = Some(d);
        }
        return o;
    }
    let limited = c.range == 0;
    let (kr, kb) = weights(c);
    let kg = 1. - kr - kb;
    for k in 0..4 {
        let Some(s) = &shape[k] else { continue };
        let mut d = s.clone();
        if k == 3 || a.kind == b.kind && a.kind != Kind::Yuv {
            // moved, requantised, or made up
            for i in 0..d.v.len() {
                d.v[i] = match &f[k] {
                    Some(x) => x.v[i] / x.max * d.max,
                    None => d.max,
                };
            }
            o[k] = Some(d);
            continue;
        }
        for y in 0..d.h {
            for x in 0..d.w {
                d.v[y * d.w + x] = if a.kind == Kind::Yuv && b.kind == Kind::Yuv {
                    resample(f, k, x, y, &d, shape)
                } else if b.kind == Kind::Rgb {
                    // a value of the source's component `k` that belongs to pixel (x, y)
                    let near = |k: usize| {
                        f[k].as_ref().map(|s| {
                            let (px, py) = (x / if s.w < d.w { 2 } else { 1 }, y / if s.h < d.h { 2 } else { 1 });
                            s.at(px.min(s.w - 1), py.min(s.h - 1))
                        })
                    };
                    let (by, ry, bc, rc) = ranges(limited, f[0].as_ref().unwrap().bits.max(8));
                    if a.kind == Kind::Gbr {
                        let v = near(k).unwrap();
                        (v - by) / ry * d.max
                    } else if a.kind == Kind::Rdp {
                        let (l, u, v) = ((near(0).unwrap() + 4096.) / 32., near(1).unwrap() / 32., near(2).unwrap() / 32.);
                        match k {
                            0 => l + 1.402525 * v,
                            1 => l - 0.343730 * u - 0.714401 * v,
                            _ => l + 1.769905 * u,
                        }
                    } else {
                        let l = (near(0).unwrap() - by) / ry;
                        let u = near(1).map_or(0., |u| (u - bc) / rc);
                        let v = near(2).map_or(0., |v| (v - bc) / rc);
                        d.max
                            * if a.kind == Kind::Cgco {
                                match k {
                                    0 => l - u + v,
                                    1 => l + u,
                                    _ => l - u - v,
                                }
                            } else {
                                match k {
                                    0 => l + 2. * (1. - kr) * v,
                                    1 => l - (2. * kb * (1. - kb) * u + 2. * kr * (1. - kr) * v) / kg,
                                    _ => l + 2. * (1. - kb) * u,
                                }
                            }
                    }
                } else {
                    // from R, G, B; chroma from the average of its pixels
                    let s = f[0].as_ref().unwrap();
                    let (nx, ny) = (if d.w < s.w { 2 } else { 1 }, if d.h < s.h { 2 } else { 1 });
                    let mean = |k: usize| {
                        let q = f[k].as_ref().unwrap();
                        let (mut t, mut n) = (0., 0.);
                        for j in y * ny..(y * ny + ny).min(q.h) {
                            for i in x * nx..(x * nx + nx).min(q.w) {
                                t += q.at(i, j);
                                n += 1.;
                            }
                        }
                        t / n / q.max
                    };
                    let (r, g, bl) = (mean(0), mean(1), mean(2));
                    let (by, ry, bc, rc) = ranges(limited, d.bits);
                    match b.kind {
                        Kind::Gbr => by + ry * [r, g, bl][k],
                        Kind::Rdp => {
                            let m = [[0.299, 0.587, 0.114], [-0.168935, -0.331665, 0.50059], [0.499813, -0.418531, -0.081282]][k];
                            (m[0] * r + m[1] * g + m[2] * bl) * 255. * 32. - if k == 0 { 4096. } else { 0. }
                        }
                        Kind::Cgco => match k {
                            0 => by + ry * (r / 4. + g / 2. + bl / 4.),
                            1 => bc + rc * (g / 2. - r / 4. - bl / 4.),
                            _ => bc + rc * (r / 2. - bl / 2.),
                        },
                        _ => {
                            let l = kr * r + kg * g + kb * bl;
                            match k {
                                0 => by + ry * l,
                                1 => bc + rc * (bl - l) / (2. * (1. - kb)),
                                _ => bc + rc * (r - l) / (2. * (1. - kr)),
                            }
                        }
                    }
                };
            }
        }
        if a.kind != Kind::Raw && b.kind != Kind::Rdp {
            d.v.iter_mut().for_each(|v| *v = v.clamp(0., d.max));
        }
        o[k] = Some(d);
    }
    o
}
/// packed 4:2:2 from and to planar: luma moves; chroma moves, is repeated, or averaged
fn resample(f: &Frame, k: usize, x: usize, y: usize, d: &Comp, shape: &Frame) -> f64 {
    let s = f[k].as_ref().unwrap();
    let full = shape[0].as_ref().unwrap();
    let src = f[0].as_ref().unwrap();
    // pixels of the frame that destination value (x, y) covers, read from the source
    let (dx, dy) = (if d.w < full.w { 2 } else { 1 }, if d.h < full.h { 2 } else { 1 });
    let (sx, sy) = (if s.w < src.w { 2 } else { 1 }, if s.h < src.h { 2 } else { 1 });
    let (mut t, mut n) = (0., 0.);
    // of two rows, the upper one decides
    let j = y * dy;
    for i in x * dx..(x * dx + dx).min(full.w) {
        t += s.at((i / sx).min(s.w - 1), (j / sy).min(s.h - 1));
        n += 1.;
    }
    t / n
}
/// What the sources of a call hold when it is held against the model: valid samples, in the nominal range; for sharp YUV,
/// which filters chroma in linear light, blocks of 2x2 equal pixels, over which every filter of that size agrees.
pub fn sources(c: &Call) -> Vec<Option<Vec<u8>>> {
    let mut v = crate::fleet::nominal(c);
    if c.spec().fam == "sharp" {
        for (p, s) in c.spec().planes.iter().enumerate() {
            if s.role != Role::Src {
                continue;
            }
            let mut d = c.content(p);
            let (rw, rows) = c.geom(p);
            let st = c.pl[p].stride as usize;
            for y in 0..rows {
                for x in 0..rw {
                    let px = x / s.ch as usize;
                    let (fy, fx) = (y & !1, (px & !1) * s.ch as usize + x % s.ch as usize);
                    let e = s.elem.size();
                    for b in 0..e {
                        d[(y * st + x) * e + b] = d[(fy * st + fx) * e + b];
                    }
                }
            }
            v[p] = Some(d);
        }
    }
    v
}
/// Destination planes of `c` as the model has them, in the order of `numbers`; NaN where anything goes.
pub fn expect(c: &Call, src: &[Vec<u8>]) -> Option<Vec<Vec<f64>>> {
    let op = c.spec();
    let (a, b) = (side(op, Role::Src)?, side(op, Role::Dst)?);
    let data: Vec<&[u8]> = a.planes.iter().map(|p| &src[*p][..]).collect();
    let f = read(c, &a, &data);
    let zero: Vec<Vec<u8>> = b.planes.iter().map(|p| vec![0; c.plane_bytes(*p)]).collect();
    let zs: Vec<&[u8]> = zero.iter().map(|v| &v[..]).collect();
    let shape = read(c, &b, &zs);
    let mut o = apply(c, &f, &a, &b, &shape);
    if op.has(FLAG) && c.flag == 1 {
        if let Some(al) = f[3].clone() {
            for k in 0..3 {
                if let Some(d) = &mut o[k] {
                    for i in 0..d.v.len() {
                        d.v[i] *= al.v[i] / al.max;
                    }
                }
            }
        }
    }
    let mut out = vec![vec![]; op.planes.len()];
    for i in 0..b.planes.len() {
        let p = b.planes[i];
        let (rw, rows) = c.geom(p);
        let mut v = vec![f64::NAN; rw * rows];
        for k in comps(&b, i) {
            let q = o[k].as_ref()?;
            let mut n = 0;
            walk(c, &b, i, k, |_, _, _, _, at| {
                v[at] = q.v[n];
                n += 1;
            });
        }
        out[p] = v;
    }
    Some(out)
}
/// How far from the model a sample may be.
pub fn tolerance(c: &Call) -> f64 {
    let op = c.spec();
    let dst = op.planes.iter().find(|p| p.role == Role::Dst).unwrap();
    if dst.elem == Elem::F16 {
        return if op.fam == "f16conv" { 0.0006 } else { 0.001 };
    }
    let deep = op.planes.iter().any(|p| p.elem == Elem::U16 && if op.has(DEPTH) { c.depth == 16 } else { p.bits == 16 });
    let encodes = matches!(side(op, Role::Src).unwrap().kind, Kind::Rgb | Kind::Gbr);
    match op.fam {
        "shuffle" | "mirror" | "rotate" => 0.,
        "f16conv" | "packed422_planar" => 1.,
        _ if deep => if encodes { 5. } else { 8. },
        "ar30_rgb" | "gbr" | "gray" | "icgc" | "ycgco" => 2.,
        "sharp" | "rdp" => 4.,
        _ if op.has(MODE) && c.mode == 2 => 2.,
        _ if op.has(MODE) && c.mode == 1 => {
            // 6-bit coefficients that end at 127/64, as in libyuv
            let (kr, kb) = weights(c);
            let most = 2. * (1. - kr.min(kb)) * if c.range == 0 { 255. / 224. } else { 1. };
            4. + if encodes { 0. } else { 128. * (most - 127. / 64.).max(0.) }
        }
        _ => if encodes { 2. } else { 4. },
    }
}
/// Which component each of `numbers` of a plane is; 4 between them.
fn which(c: &Call, s: &Side, i: usize) -> Vec<usize> {
    let (rw, rows) = c.geom(s.planes[i]);
    let mut v = vec![4; rw * rows];
    for k in comps(s, i) {
        walk(c, s, i, k, |_, _, _, _, at| v[at] = k);
    }
    v
}
pub struct Apart {
    /// how far beyond what is allowed
    pub over: f64,
    pub diff: f64,
    pub plane: usize,
    pub at: usize,
    pub got: f64,
    pub want: f64,
    pub what: &'static str,
}
/// The sample that is furthest beyond what it may be.
pub fn apart(c: &Call, want: &[Vec<f64>], out: &[Vec<u8>]) -> Apart {
    let op = c.spec();
    let (a, b) = (side(op, Role::Src).unwrap(), side(op, Role::Dst).unwrap());
    let tol = tolerance(c);
    let mut m = Apart { over: f64::NEG_INFINITY, diff: 0., plane: 0, at: 0, got: 0., want: 0., what: "value" };
    // alpha that is not rescaled is not touched
    let src_alpha = (0..a.planes.len()).find(|i| a.order[*i].contains(&3)).map(|i| top(c, a.planes[i], 3, a.word.is_some()).1);
    for (i, p) in b.planes.iter().enumerate() {
        if out[*p].is_empty() {
            continue;
        }
        let ks = which(c, &b, i);
        let dst_bits = top(c, *p, 3, b.word.is_some()).1;
        let alpha_tol = match src_alpha {
            Some(n) if n != dst_bits => if b.word.is_some() { 1. } else { tol.max(1.) },
            _ => 0.,
        };
        for (n, g) in numbers(c, *p, &out[*p], b.word).into_iter().enumerate() {
            let d = (g - want[*p][n]).abs();
            let k = ks[n];
            let over = d - if k == 3 { if op.planes[*p].elem == Elem::F16 { 0.0006 } else { alpha_tol } } else { tol };
            let what = if k == 3 { "alpha" } else { "value" };
            if over > m.over {
                m = Apart { over, diff: d, plane: *p, at: n, got: g, want: want[*p][n], what };
            }
        }
    }
    m
}

/// Largest difference between the model and every CPU model's code, per operation.
pub unsafe fn scan(ctx: &mut crate::exec::Ctx, runs: u64, part: u64, parts: u64, only: &str) {
    use crate::ops::OPS;
    crate::arena::map();
    for op in 0..OPS.len() {
        if op as u64 % parts != part || !only.is_empty() && !OPS[op].name.contains(only) {
            continue;
        }
        let mut worst = std::collections::BTreeMap::<(String, u32, u32), (f64, String)>::new();
        for i in 0..runs {
            let mut r = crate::prng::Rng::new(crate::prng::mix(op as u64 * 7919 + 5, i));
            let mut c = crate::gen::call(&mut r, op, true);
            if c.content == 3 {
                c.content = 0;
            }
            let nom = sources(&c);
            let src: Vec<Vec<u8>> = (0..c.pl.len()).map(|p| nom[p].clone().unwrap_or_else(|| c.content(p))).collect();
            let Some(want) = expect(&c, &src) else {
                println!("nomodel\t{}", OPS[op].name);
                break;
            };
            for m in 0..ctx.models.len() {
                let (name, cpu) = (ctx.models[m].name, ctx.models[m].mask);
                let f = reference(&ctx.seq, &c, cpu, Some(0), &nom);
                if f.status != 0 {
                    break;
                }
                let x = apart(&c, &want, &f.out);
                let (d, p, at) = (x.diff, x.plane, x.at);
                let k = (name.to_string(), if OPS[op].has(MODE) { c.mode } else { 9 }, if OPS[op].has(DEPTH) { c.depth } else { 0 });
                let e = worst.entry(k).or_insert((0., String::new()));
                if d > e.0 {
                    let g = numbers(&c, p, &f.out[p], side(&OPS[op], Role::Dst).unwrap().word);
                    *e = (d, format!("i{i} w{} h{} plane{p} at{at} of {} {:.2} got {} content{} range{} matrix{} flag{} geo{}", c.w[0], c.h[0], g.len(), want[p][at], g[at], c.content, c.range, c.matrix, c.flag, c.geo));
                }
            }
        }
        let mut best: Option<(f64, String)> = None;
        for ((m, mode, depth), (d, t)) in worst {
            let d = if OPS[op].planes.iter().any(|p| p.role == Role::Dst && p.elem == Elem::F16) { d * 1000. } else { d };
            let l = format!("{}\t{}\t{m}\tmode{mode}\tdepth{depth}\t{d:.2}\t{t}", OPS[op].fam, OPS[op].name);
            if std::env::var("SIM_ALL").is_ok() {
                println!("{l}");
            } else if best.as_ref().is_none_or(|b| d > b.0) {
                best = Some((d, l));
            }
        }
        if let Some((_, l)) = best {
            println!("{l}");
        }
    }
}
