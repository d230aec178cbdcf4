//! Random calls.
use crate::arena::SLOT;
use crate::ops::*;
use crate::prng::*;
use crate::spec::*;
use crate::world::*;

pub fn dims(r: &mut Rng) -> (u32, u32) {
    if r.chance(1, 200) {
        // beyond what 16 bits count
        let n = r.pick(&[8192usize, 16384, 32768, 65536, 65536]) + r.below(5);
        let n = (n - 2 + if r.chance(1, 4) { r.below(4000) } else { 0 }) as u32;
        return if r.chance(2, 3) { (n, r.range(1, 2) as u32) } else { (r.range(1, 3) as u32, n) };
    }
    if r.chance(1, 100) {
        // a picture
        return (r.range(250, 720) as u32, r.range(100, 480) as u32);
    }
    match r.below(40) {
        0 => return (r.range(420, 4300) as u32, r.range(1, 4) as u32),
        1 => return (r.range(1, 20) as u32, r.range(33, 700) as u32),
        2 => return (r.pick(&[511u32, 512, 513, 640, 1023, 1024, 1025, 1280, 1920, 1921, 2048, 2049, 3840, 4096]), r.range(1, 3) as u32),
        _ => {}
    }
    let w = match r.below(12) {
        0..=3 => r.range(1, 40),
        4..=6 => r.range(1, 150),
        7 => r.range(1, 6),
        8..=9 => {
            let base = r.pick(&[8usize, 16, 24, 32, 48, 64, 96, 128, 160, 192, 256]);
            (base + r.below(5)).saturating_sub(2).max(1)
        }
        10 => r.range(120, 420),
        _ => r.range(1, 70),
    };
    let h = match r.below(10) {
        0..=5 => r.range(1, 8),
        6..=7 => r.range(1, 16),
        8 => r.range(1, 3),
        _ => r.range(8, 33),
    };
    (w as u32, h as u32)
}

/// A well-formed call of `op`. `pad`: also rows longer than the image is wide, where the library takes them.
pub fn call(r: &mut Rng, op: usize, pad: bool) -> Call {
    let (w, mut h) = dims(r);
    if OPS[op].fam == "sharp" {
        h = h.min(12);
    }
    let mut c = Call {
        op,
        w: [w, w],
        h: [h, h],
        range: r.below(2) as u32,
        matrix: r.below(7) as u32,
        mode: r.below(3) as u32,
        flag: r.below(2) as u32,
        depth: r.pick(&[10u32, 12, 14, 16, 8, 9]).max(if OPS[op].fam == "f16conv" { 10 } else { 10 }),
        order: r.below(2) as u32,
        gamma: r.below(4) as u32,
        geo: r.below(3) as u32,
        custom: if r.chance(1, 2) { r.below(CUSTOM.len()) } else { r.below(1000) } as u32,
        own: 0,
        content: r.pick(&[0u32, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]),
        seed: r.next(),
        pl: vec![],
    };
    c.set_default_planes();
    for p in 0..c.pl.len() {
        if pad && c.can_pad(p) && r.chance(1, 2) {
            let row = c.geom(p).0;
            let e = match r.below(6) {
                4 => r.range(1, 2 * row.min(2000) + 1),
                5 => row.next_multiple_of(r.pick(&[64usize, 128, 256, 1024, 4096])) - row,
                0 => r.range(1, 3),
                1 => r.range(1, 16),
                2 => r.pick(&[16usize, 32, 64]),
                _ => r.range(1, 80),
            };
            c.set_stride(p, e);
        }
        c.pl[p].place = r.pick(&[0u8, 0, 1, 2]);
        c.pl[p].off = r.below(64) as u32;
        c.pl[p].stale = r.pick(&[0u8, 1, 2, 3, 4, 5]);
    }
    fit(&mut c);
    c
}
/// More rows, as a frame has that is worth spreading over threads.
pub fn taller(r: &mut Rng, c: &mut Call) {
    let ex: Vec<usize> = (0..c.pl.len()).map(|p| c.pl[p].stride as usize - c.geom(p).0).collect();
    let far = r.chance(1, 12);
    c.h = [c.h[0].max(if far { r.range(90, 1500) } else { r.range(8, 90) } as u32); 2];
    c.w = [c.w[0].min(if far { 24 } else { 200 }); 2];
    for p in 0..c.pl.len() {
        c.set_stride(p, ex[p]);
    }
    fit(c);
}
/// Shrinks the height until every plane fits a slot.
pub fn fit(c: &mut Call) {
    for round in 0..64 {
        let big = (0..c.pl.len()).any(|p| c.plane_bytes(p) > SLOT - 8192);
        if !big {
            return;
        }
        let st: Vec<usize> = (0..c.pl.len()).map(|p| c.pl[p].stride as usize - c.geom(p).0.min(c.pl[p].stride as usize)).collect();
        c.h = [(c.h[0] / 2).max(1); 2];
        if round > 3 {
            c.w = [c.w[0].min(2000); 2];
        }
        for p in 0..c.pl.len() {
            c.set_stride(p, if round > 16 { 0 } else { st[p] });
        }
    }
}
