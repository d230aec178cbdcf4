//! Images as samples: how far apart two results are.
use crate::spec::*;
use crate::world::*;

/// Samples of the destination planes of `c`, padding left out: one vector per plane, in code values of the plane's depth.
pub fn samples(c: &Call, out: &[Vec<u8>]) -> Vec<Vec<i32>> {
    let op = c.spec();
    (0..op.planes.len())
        .map(|p| {
            let s = &op.planes[p];
            if s.role != Role::Dst || out[p].is_empty() {
                return vec![];
            }
            let (rw, rows) = c.geom(p);
            let st = c.pl[p].stride as usize;
            let word = ar30(op, p);
            let e = s.elem.size();
            let mut v = vec![];
            for y in 0..rows {
                let row = &out[p][y * st * e..(y * st + rw) * e];
                if let Some(ra) = word {
                    for q in row.chunks_exact(4) {
                        let q = [q[0], q[1], q[2], q[3]];
                        let w = if c.order == 0 { u32::from_le_bytes(q) } else { u32::from_be_bytes(q) };
                        let a = if ra { 2 } else { 0 };
                        for k in 0..3 {
                            v.push((w >> (a + 10 * k) & 1023) as i32);
                        }
                        v.push(if ra { w & 3 } else { w >> 30 } as i32);
                    }
                    continue;
                }
                if e == 1 {
                    v.extend(row.iter().map(|b| *b as i32));
                    continue;
                }
                let bits = if op.has(DEPTH) && s.elem == Elem::U16 { c.depth } else { s.bits };
                for q in row.chunks_exact(2) {
                    let x = if s.be { u16::from_be_bytes([q[0], q[1]]) } else { u16::from_le_bytes([q[0], q[1]]) };
                    v.push(match s.elem {
                        Elem::I16 => x as i16 as i32,
                        Elem::F16 => half(x),
                        _ if s.msb => (x >> (16 - bits)) as i32,
                        _ => x as i32,
                    });
                }
            }
            v
        })
        .collect()
}
/// the plane holds 32-bit words of three 10-bit channels; true: RA30
pub fn ar30(op: &Op, p: usize) -> Option<bool> {
    let s = &op.planes[p];
    if s.elem != Elem::U8 || s.ch != 4 || !(op.fam == "planar_ar30" || op.fam == "ar30_rgb") {
        return None;
    }
    let to = op.name.rsplit("_to_").next().unwrap_or("");
    let first = op.name.split("_to_").next().unwrap_or("");
    if to.contains("ar30") || first.contains("ar30") {
        let n = if s.role == Role::Dst { to } else { first };
        return n.contains("ar30").then_some(false);
    }
    let n = if s.role == Role::Dst { to } else { first };
    n.contains("ra30").then_some(true)
}
/// binary16 in units of 1/4095
pub fn half(x: u16) -> i32 {
    let (e, m) = ((x >> 10 & 31) as i32, (x & 1023) as f64);
    let v = match e {
        0 => m * 2f64.powi(-24),
        31 => return if x & 1023 != 0 { 1 << 20 } else { 1 << 21 },
        _ => (1024. + m) * 2f64.powi(e - 25),
    };
    let v = (v * 4095.).round().min(1e6) as i32;
    if x >> 15 != 0 { -v } else { v }
}
/// Source planes with every sample inside the nominal range (limited-range YUV).
pub fn nominal(c: &Call) -> Vec<Option<Vec<u8>>> {
    let op = c.spec();
    let yuv = op.fam == "ayuv" || op.planes.iter().any(|s| s.role == Role::Src && (s.packed || s.ch < 3));
    (0..op.planes.len())
        .map(|p| {
            let s = &op.planes[p];
            if s.role == Role::Dst || c.range != 0 || !op.has(RANGE) || !yuv {
                return None;
            }
            let mut v = c.content(p);
            if s.elem == Elem::U8 {
                v.iter_mut().for_each(|b| *b = (*b).clamp(16, 235));
                return Some(v);
            }
            if s.elem != Elem::U16 {
                return None;
            }
            let bits = if op.has(DEPTH) { c.depth } else { s.bits };
            for q in v.chunks_exact_mut(2) {
                let mut x = if s.be { u16::from_be_bytes([q[0], q[1]]) } else { u16::from_le_bytes([q[0], q[1]]) };
                let k = if s.msb { 16 } else { bits };
                x = x.clamp(16 << (k - 8), 235 << (k - 8));
                if s.msb {
                    x &= !((1u16 << (16 - bits)) - 1);
                }
                q.copy_from_slice(&if s.be { x.to_be_bytes() } else { x.to_le_bytes() });
            }
            Some(v)
        })
        .collect()
}
/// How far the back ends may be apart: functions that move samples, not at all; others, rounding.
pub fn tolerance(op: &Op) -> i32 {
    match op.fam {
        "shuffle" | "mirror" | "rotate" => 0,
        _ => 4,
    }
}
/// largest difference, and where
pub fn apart(a: &[Vec<i32>], b: &[Vec<i32>]) -> (i32, usize, usize) {
    let mut m = (0, 0, 0);
    for p in 0..a.len() {
        for i in 0..a[p].len() {
            let d = (a[p][i] - b[p][i]).abs();
            if d > m.0 {
                m = (d, p, i);
            }
        }
    }
    m
}

pub unsafe fn scan(ctx: &mut crate::exec::Ctx, runs: u64, part: u64, parts: u64, only: &str) {
    use crate::ops::OPS;
    crate::arena::map();
    for op in 0..OPS.len() {
        if op as u64 % parts != part || !only.is_empty() && !OPS[op].name.contains(only) {
            continue;
        }
        let mut worst = std::collections::BTreeMap::<(String, u32, u32), (i32, String)>::new();
        for i in 0..runs {
            let mut r = crate::prng::Rng::new(crate::prng::mix(op as u64 * 7919 + 5, i));
            let mut c = crate::gen::call(&mut r, op, true);
            if c.content == 3 {
                c.content = 0;
            }
            let mut base: Option<(crate::world::Ref, Vec<Vec<i32>>)> = None;
            for m in 0..ctx.models.len() {
                let (name, cpu) = (ctx.models[m].name, ctx.models[m].mask);
                let f = crate::world::reference(&ctx.seq, &c, cpu, Some(0), &nominal(&c));
                let s = samples(&c, &f.out);
                if let Some((b, bs)) = &base {
                    let (d, p, at) = if b.status != f.status { (99999, 0, 0) } else { apart(bs, &s) };
                    let k = (name.to_string(), if OPS[op].has(MODE) { c.mode } else { 9 }, if OPS[op].has(DEPTH) { c.depth } else { 0 });
                    let e = worst.entry(k).or_insert((0, String::new()));
                    if d > e.0 {
                        *e = (d, format!("i{i} w{} h{} plane{p} at{at} of {} {} vs {} content{} range{} matrix{}", c.w[0], c.h[0], s[p].len(), bs[p].get(at).unwrap_or(&0), s[p].get(at).unwrap_or(&0), c.content, c.range, c.matrix));
                    }
                } else {
                    base = Some((f, s));
                }
            }
        }
        for ((m, mode, depth), (d, t)) in worst {
            if d > 0 {
                println!("{}\t{}\t{m}\tmode{mode}\tdepth{depth}\t{d}\t{t}", OPS[op].fam, OPS[op].name);
            }
        }
    }
}
