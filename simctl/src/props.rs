//! Scenario generators, one per property.
use crate::arena::PAGE;
use crate::gen;
use crate::node::Cpu;
use crate::ops::*;
use crate::prng::*;
use crate::scn::*;
use crate::spec::*;
use crate::world::*;

pub const PROPS: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

/// A call that differs from `c` in little: what a cache with too narrow a key would confuse with it.
pub fn near(r: &mut Rng, c: &Call, pad: bool) -> Call {
    let mut d = c.clone();
    for p in d.pl.iter_mut() {
        p.share = None;
    }
    let mut replane = false;
    match r.below(20) {
        18 | 19 if c.content & 7 != 3 => d.content = c.content % 8 + 8 * r.range(1, 500) as u32,
        0 => d.matrix = (d.matrix + 1 + r.below(6) as u32) % 7,
        1 => {
            d.matrix = 6;
            d.custom = if d.custom < 6 && r.chance(1, 2) { (d.custom + 1 + r.below(5) as u32) % 6 } else { r.below(1000) as u32 };
        }
        2 => d.range ^= 1,
        3 => d.mode = (d.mode + 1 + r.below(2) as u32) % 3,
        4 => d.flag ^= 1,
        5 => d.depth = r.pick(&[10u32, 12, 14, 16]),
        6 => d.gamma = (d.gamma + 1 + r.below(3) as u32) % 4,
        7 => d.geo = (d.geo + 1) % 3,
        8 => d.order ^= 1,
        9 | 10 => d.seed = r.next(),
        11 => {
            d.content = r.below(7) as u32;
            d.seed = r.next();
        }
        12 => {
            d.w = [(d.w[0] + r.range(1, 3) as u32) % 600 + 1; 2];
            replane = true;
        }
        13 => {
            d.h = [d.h[0] + r.range(1, 3) as u32; 2];
            replane = true;
        }
        14 => {
            d.w = [d.w[0].saturating_sub(r.range(1, 3) as u32).max(1); 2];
            replane = true;
        }
        15 => {
            // a sibling
            let sib: Vec<usize> = (0..N_OPS).filter(|o| OPS[*o].fam == c.spec().fam).collect();
            d.op = sib[r.below(sib.len())];
            replane = true;
        }
        16 => {
            let mut x = gen::call(r, c.op, pad);
            x.matrix = c.matrix;
            x.range = c.range;
            return x;
        }
        _ => {}
    }
    if replane {
        d.set_default_planes();
        for p in 0..d.pl.len() {
            d.pl[p].place = r.pick(&[0u8, 1, 2]);
            d.pl[p].off = r.below(64) as u32;
            d.pl[p].stale = r.below(6) as u8;
        }
        gen::fit(&mut d);
    } else if d.spec().has(DEPTH) || true {
        // same geometry
    }
    d
}
fn share(r: &mut Rng, calls: &mut Vec<Call>, dst: bool) {
    // planes of equal size live in one buffer now and then
    for i in 1..calls.len() {
        if !r.chance(1, 2) {
            continue;
        }
        let a = r.below(i);
        for p in 0..calls[i].pl.len() {
            let (ra, rb) = (calls[i].spec().planes[p].role, calls[a].spec().planes.get(p).map(|x| x.role));
            if Some(ra) != rb || (ra == Role::Dst && !dst) {
                continue;
            }
            if calls[a].pl[p].share.is_none() && calls[a].plane_bytes(p) == calls[i].plane_bytes(p) && calls[a].pl[p].stride == calls[i].pl[p].stride {
                calls[i].pl[p].share = Some((a as u8, p as u8));
            }
        }
    }
}
fn quantum(r: &mut Rng) -> u32 {
    r.pick(&[1u32, 2, 2, 3, 3, 4, 4])
}
/// Edges of bands of rows; a frame too low for that grows.
fn bands(r: &mut Rng, c: &mut Call) -> Vec<u32> {
    if c.h[0] < 3 {
        c.h = [r.range(3, 12) as u32; 2];
        let ex: Vec<usize> = (0..c.pl.len()).map(|p| c.pl[p].stride as usize - c.geom(p).0).collect();
        for p in 0..c.pl.len() {
            c.set_stride(p, ex[p]);
        }
        gen::fit(c);
    }
    let h = c.h[0];
    let mut y = 0;
    let mut v: Vec<u32> = vec![];
    while y < h {
        y += 2 * r.pick(&[1u32, 1, 2, 2, 3, 4, 8, 13]);
        if v.len() > 12 {
            y = h;
        }
        v.push(y.min(h));
    }
    if v.len() > 1 && v[v.len() - 1] == v[v.len() - 2] {
        v.pop();
    }
    v
}
fn noise(r: &mut Rng, s: &mut Scn) {
    s.heap_seed = r.next() | 0xa5 << 16;
    s.stack_fill = r.below(1000) as u32;
    s.clock_seed = r.next();
}
fn small(c: &mut Call, area: u32) {
    while c.w[0] * c.h[0] > area {
        if c.h[0] > 4 {
            c.h = [c.h[0] / 2; 2];
        } else {
            c.w = [c.w[0] / 2; 2];
        }
        c.set_default_planes();
    }
}

pub fn eligible(prop: &str, op: usize) -> bool {
    let o = &OPS[op];
    match prop {
        "C06" => !o.has(ROTATE | MIRROR) && o.fam != "sharp",
        "C13" => o.has_image(),
        _ => true,
    }
}

pub fn generate(prop: &str, seed: u64, i: u64, models: &[Cpu]) -> Scn {
    let mut r = Rng::new(mix(mix(seed, prop.bytes().fold(7, |a, b| a * 31 + b as u64)), i));
    let ops: Vec<usize> = (0..N_OPS).filter(|o| eligible(prop, *o)).collect();
    // round robin, in an order that puts distant functions next to each other
    let n = ops.len() as u64;
    let step = [389u64, 383, 379, 373].into_iter().find(|k| n % k != 0).unwrap();
    let op = ops[((i * step + i / n * 7) % n) as usize];
    let mut s = Scn::new(prop);
    s.cpu = models[r.below(models.len())].name.into();
    s.tape = Tape::Seed(r.next());
    match prop {
        "C01" => {
            s.par = true;
            let mut c = gen::call(&mut r, op, true);
            if r.chance(1, 2) {
                gen::taller(&mut r, &mut c);
            }
            s.calls.push(c);
            s.workers = r.pick(&[1u32, 2, 2, 3, 3, 4, 5, 8]);
            s.nested = r.chance(1, 4);
            let more = if s.nested { r.pick(&[1usize, 1, 2, 3, 5]) } else { r.chance(1, 5) as usize };
            for _ in 0..more {
                let mut c = near(&mut r, &s.calls[0].clone(), true);
                if more > 1 {
                    small(&mut c, 2000);
                }
                s.calls.push(c);
            }
            if more > 0 {
                share(&mut r, &mut s.calls, false);
            }
            s.clients = (0..s.calls.len()).map(|i| vec![i]).collect();
            if s.clients.len() > 1 && r.chance(if s.nested { 2 } else { 1 }, 3) {
                s.clients = vec![(0..s.calls.len()).collect()];
            }
            s.quantum = r.pick(&[0u32, 1, 2, 2, 3, 3, 4]);
            s.insn = r.pick(&[0u32, 0, 1, 2]);
            s.watch = r.chance(1, 4) as u32;
            for _ in 0..r.pick(&[0usize, 0, 1, 1, 2, 3]) {
                let a = r.below(s.clients.len() + s.workers as usize);
                s.freezes.push((a, r.below(900) as u32, r.pick(&[200u64, 3000, 30_000, 300_000])));
            }
            noise(&mut r, &mut s);
        }
        "C02" => {
            let crowd = r.chance(1, 25);
            let n = if crowd { r.pick(&[9usize, 10, 12]) } else { r.pick(&[2usize, 2, 2, 3, 3, 4, 6]) };
            let mut c = gen::call(&mut r, op, true);
            small(&mut c, if crowd { 150 } else if r.chance(1, 4) { 4000 } else { 700 });
            s.calls.push(c);
            while s.calls.len() < n {
                let c = match r.below(8) {
                    0 => gen::call(&mut r, op, true),
                    1 => {
                        let o = r.below(N_OPS);
                        gen::call(&mut r, o, true)
                    }
                    _ => {
                        let k = r.below(s.calls.len());
                        near(&mut r, &s.calls[k].clone(), true)
                    }
                };
                s.calls.push(c);
            }
            share(&mut r, &mut s.calls, false);
            s.clients = (0..n).map(|i| vec![i]).collect();
            if n > 3 && r.chance(1, 2) {
                // fewer clients, several calls each
                let k = r.range(2, 3);
                s.clients = (0..k).map(|j| (0..n).filter(|i| i % k == j).collect()).collect();
            }
            if r.chance(1, 6) {
                s.pool = r.range(1, 33) as u32;
            }
            let lapped = n == 2 && r.chance(1, 3);
            if lapped {
                // one caller stands still while the other goes through many calls
                s.clients[1] = vec![1; r.pick(&[4usize, 9, 17, 33, 70, 130, 260])];
                s.freezes.push((0, r.below(1000) as u32, r.pick(&[50_000u64, 500_000, 2_000_000])));
            }
            s.quantum = quantum(&mut r);
            s.insn = r.pick(&[0u32, 1, 2, 4]);
            s.watch = r.chance(1, 3) as u32;
            if r.chance(1, 4) {
                s.freezes.push((r.below(s.clients.len()), r.below(900) as u32, r.pick(&[500u64, 5000, 50_000])));
            }
            noise(&mut r, &mut s);
        }
        "C03" => {
            let long = r.chance(1, 6);
            let n = r.pick(&[1usize, 1, 2, 2, 3, 4, 6]);
            let c = gen::call(&mut r, op, true);
            s.calls.push(c);
            if long {
                small(&mut s.calls[0], 300);
            }
            let age = long && r.chance(1, 30);
            if age {
                small(&mut s.calls[0], 20);
            }
            while s.calls.len() < n {
                let c = if r.chance(1, 6) {
                    let o = r.below(N_OPS);
                    gen::call(&mut r, o, true)
                } else {
                    let k = r.below(s.calls.len());
                    near(&mut r, &s.calls[k].clone(), true)
                };
                s.calls.push(c);
            }
            share(&mut r, &mut s.calls, true);
            let len = if age { r.pick(&[1100usize, 2100, 4200, 5000]) } else if long { r.pick(&[20usize, 40, 70, 130, 260, 300]) } else { r.range(n, 2 * n) };
            let mut h: Vec<usize> = (0..len).map(|_| r.below(n)).collect();
            h.extend(0..n);
            // any order
            for i in (1..h.len()).rev() {
                h.swap(i, r.below(i + 1));
            }
            s.clients = vec![h];
            if r.chance(1, 3) {
                s.pool = r.range(1, 33) as u32;
            }
            noise(&mut r, &mut s);
        }
        "C04" => {
            let c = gen::call(&mut r, op, true);
            s.calls.push(c);
            let n = r.pick(&[1usize, 1, 1, 2, 2, 3]);
            while s.calls.len() < n {
                let k = near(&mut r, &s.calls[0].clone(), true);
                s.calls.push(k);
            }
            share(&mut r, &mut s.calls, false);
            s.clients = if n > 1 && r.chance(1, 2) { (0..n).map(|i| vec![i]).collect() } else { vec![(0..n).collect()] };
            s.quantum = if s.clients.len() > 1 { quantum(&mut r) } else { 0 };
            let heap = s.calls.iter().any(|c| matches!(c.spec().fam, "sharp" | "rotate" | "ycgco" | "shuffle"));
            if heap && r.chance(1, 2) {
                s.alloc_fail = Some(r.below(12) as u64);
            } else {
                let k = if r.chance(1, 3) { r.range(1, 60) as u32 } else { 0 };
                s.crash = Some((r.below(1000) as u32, if r.chance(1, 8) { crate::scn::AT_FOREIGN_WRITE } else { k }));
            }
            if r.chance(1, 4) {
                s.crash2 = Some((r.below(1000) as u32, 0));
            }
            noise(&mut r, &mut s);
        }
        "C05" => {
            let c = gen::call(&mut r, op, true);
            s.calls.push(c);
            if r.chance(1, 5) {
                let k = near(&mut r, &s.calls[0].clone(), true);
                s.calls.push(k);
            }
            for c in s.calls.iter_mut() {
                for p in c.pl.iter_mut() {
                    // the ends matter here
                    p.place = r.pick(&[0u8, 0, 0, 1, 2, 2]);
                }
            }
            s.clients = (0..s.calls.len()).map(|i| vec![i]).collect();
            s.racer = r.chance(1, 3);
            if !s.racer && s.calls.len() == 1 && r.chance(3, 4) {
                // rows that end with a page, in front of a page of padding that faults when it is written
                let c = &mut s.calls[0];
                for p in 0..c.pl.len() {
                    let (row, rows) = c.geom(p);
                    let e = c.spec().planes[p].elem.size();
                    if c.can_pad(p) && row * e <= PAGE && rows * 2 * PAGE <= 62 * PAGE && c.pl[p].share.is_none() {
                        c.set_stride(p, 2 * PAGE / e - row);
                        c.pl[p].place = 3;
                    }
                }
            }
            s.quantum = if s.racer { quantum(&mut r) } else if s.calls.len() > 1 { 2 } else { 0 };
            s.insn = if s.racer { r.pick(&[0u32, 2, 6]) } else { 0 };
            noise(&mut r, &mut s);
        }
        "C06" => {
            let mut c = gen::call(&mut r, op, true);
            if r.chance(1, 3) {
                gen::taller(&mut r, &mut c);
            }
            s.bands = bands(&mut r, &mut c);
            s.calls.push(c);
            s.clients = vec![vec![0]];
            s.workers = r.pick(&[1u32, 1, 2, 3, 4]);
            s.quantum = if s.workers > 1 { quantum(&mut r) } else { 0 };
            s.insn = if s.workers > 1 { r.pick(&[0u32, 0, 2]) } else { 0 };
            s.watch = (s.workers > 1 && r.chance(1, 4)) as u32;
            if r.chance(1, 3) {
                s.crash = Some((r.below(1000) as u32, r.below(20) as u32));
            }
            noise(&mut r, &mut s);
        }
        "C07" => {
            s.cpu = "x86-64".into();
            let n = r.pick(&[1usize, 1, 2, 3]);
            while s.calls.len() < n {
                let mut c = if s.calls.is_empty() { gen::call(&mut r, op, true) } else { near(&mut r, &s.calls[0].clone(), true) };
                if c.content == 3 {
                    c.content = 0;
                }
                s.calls.push(c);
            }
            let most = r.pick(&[1usize, 2, 2, 3, 4]);
            // machines of which some are likely to be the best this host can play
            s.fleet = (0..most).map(|_| models[r.below(models.len())].name.into()).collect();
            if n == 1 && eligible("C06", op) && r.chance(1, 2) {
                s.bands = bands(&mut r, &mut s.calls[0]);
            }
            s.clients = vec![(0..n).collect()];
            s.workers = r.pick(&[1u32, 1, 1, 2, 3]);
            s.quantum = if s.workers > 1 { quantum(&mut r) } else { 0 };
            if r.chance(1, 2) {
                s.crash = Some((r.below(1000) as u32, r.below(20) as u32));
                if r.chance(1, 2) {
                    s.crash2 = Some((r.below(1000) as u32, r.below(20) as u32));
                }
            }
            noise(&mut r, &mut s);
        }
        "C14" => {
            // a kind of machine, and who can take part in it: build and CPU
            let kinds: Vec<u64> = models.iter().map(|m| crate::node::serves(1, m.mask)).collect();
            let kind = if r.chance(1, 3) { 0 } else { r.pick(&kinds) };
            let mut who = vec![];
            for m in models {
                for (b, n) in ["full", "default", "bare"].iter().enumerate() {
                    if crate::node::serves(b, m.mask) == kind {
                        who.push(format!("{n}/{}", m.name));
                    }
                }
            }
            let other: Vec<String> = who.iter().filter(|w| !w.starts_with("full")).cloned().collect();
            s.cpu = models.iter().find(|m| crate::node::serves(0, m.mask) == kind).map_or("x86-64", |m| m.name).into();
            s.fleet = (0..r.pick(&[1usize, 1, 2, 3])).map(|i| if i == 0 || r.chance(2, 3) { other[r.below(other.len())].clone() } else { who[r.below(who.len())].clone() }).collect();
            let n = r.pick(&[1usize, 1, 2, 3]);
            for i in 0..n {
                let mut c = if i > 0 && r.chance(1, 2) { near(&mut r, &s.calls[i - 1].clone(), true) } else { gen::call(&mut r, op, true) };
                c.mode = 0;
                s.calls.push(c);
            }
            if n == 1 && eligible("C06", op) && r.chance(1, 3) {
                s.bands = bands(&mut r, &mut s.calls[0]);
            }
            s.clients = vec![(0..n).collect()];
            s.workers = r.pick(&[1u32, 1, 1, 2, 3]);
            s.quantum = if s.workers > 1 { quantum(&mut r) } else { 0 };
            if r.chance(1, 3) {
                s.crash = Some((r.below(1000) as u32, r.below(20) as u32));
                if r.chance(1, 2) {
                    s.crash2 = Some((r.below(1000) as u32, r.below(20) as u32));
                }
            }
            noise(&mut r, &mut s);
        }
        "C11" => {
            s.cpu = "x86-64".into();
            let whole = r.chance(1, 2);
            let n = if whole { r.range(2, 6) } else { r.range(1, 3) };
            for i in 0..n {
                let mut c = if i > 0 && r.chance(1, 4) { near(&mut r, &s.calls[i - 1].clone(), true) } else { gen::call(&mut r, op, true) };
                if c.content == 3 {
                    c.content = 0;
                }
                if c.spec().fam == "rotate" {
                    c.set_default_planes();
                }
                s.calls.push(c);
            }
            s.fleet = (0..r.range(1, 3)).map(|_| models[r.below(models.len())].name.into()).collect();
            if n == 1 && eligible("C06", op) && r.chance(1, 2) {
                s.bands = bands(&mut r, &mut s.calls[0]);
            }
            s.clients = vec![(0..n).collect()];
            s.workers = r.pick(&[1u32, 1, 1, 2, 3]);
            s.quantum = if s.workers > 1 { quantum(&mut r) } else { 0 };
            if !whole {
                s.crash = Some((r.below(1000) as u32, r.below(20) as u32));
                if r.chance(1, 2) {
                    s.crash2 = Some((r.below(1000) as u32, r.below(20) as u32));
                }
            }
            noise(&mut r, &mut s);
        }
        "C08" => {
            let good = |r: &mut Rng| {
                let mut c = gen::call(r, op, true);
                if c.spec().fam == "rotate" {
                    c.set_default_planes();
                }
                if r.chance(1, 2) {
                    small(&mut c, 300);
                }
                c
            };
            let n = r.pick(&[1usize, 2, 2, 3, 4]);
            let mut base = good(&mut r);
            for k in 0..n {
                let mut c = if k > 0 && r.chance(1, 2) { near(&mut r, &base, true) } else { good(&mut r) };
                if fit_faulty(&c) {
                    c = good(&mut r);
                }
                base = c.clone();
                if r.chance(2, 3) {
                    let kind = geometry_fault(&mut r, &mut c);
                    s.faults.push((k, kind));
                }
                s.calls.push(c);
            }
            let mut h: Vec<usize> = (0..n).collect();
            // every call again: a rejected call leaves no trace
            if r.chance(1, 3) {
                h.extend(0..n);
            }
            s.clients = vec![h];
            noise(&mut r, &mut s);
        }
        "C13" => {
            let n = r.pick(&[1usize, 1, 2, 3]);
            let c = gen::call(&mut r, op, true);
            s.calls.push(c);
            while s.calls.len() < n {
                let k = r.below(s.calls.len());
                let c = near(&mut r, &s.calls[k].clone(), true);
                s.calls.push(c);
            }
            share(&mut r, &mut s.calls, false);
            for (k, c) in s.calls.iter_mut().enumerate() {
                c.own = r.pick(&[1u32, 2, 3, 3, 4]) | r.below(4) as u32 * 4;
                if r.chance(1, 4) && c.pl.iter().all(|p| p.share.is_none()) {
                    // one plane of an image too short, or its stride
                    let good = c.clone();
                    let ps: Vec<usize> = (0..c.pl.len()).filter(|p| c.is_image(*p)).collect();
                    let p = ps[r.below(ps.len())];
                    let (row, rows) = c.geom(p);
                    let need = c.pl[p].stride as usize * (rows - 1) + row;
                    let short = |r: &mut Rng, n: usize| if r.chance(1, 2) { n - 1 } else { r.below(n) };
                    let kind = if r.chance(2, 3) {
                        c.pl[p].len = short(&mut r, need) as u32;
                        "truncated"
                    } else {
                        c.pl[p].stride = short(&mut r, row) as u32;
                        "stride"
                    };
                    if c.pl.iter().any(|p| p.len == 0) || !matches!(crate::exec::fit(c), crate::exec::Fit::Reject) {
                        *c = good;
                    } else {
                        c.own = 4;
                        s.faults.push((k, kind.into()));
                    }
                }
            }
            // sharing goes by the owner's planes; a shortened one is nobody's
            for i in 0..n {
                for p in 0..s.calls[i].pl.len() {
                    if s.calls[i].pl[p].share.is_some_and(|(a, q)| s.calls[a as usize].plane_bytes(q as usize) != s.calls[i].plane_bytes(p) || s.calls[a as usize].pl[q as usize].stride != s.calls[i].pl[p].stride) {
                        s.calls[i].pl[p].share = None;
                    }
                }
            }
            let l: Vec<usize> = (0..n).collect();
            s.clients = if n > 1 && r.chance(1, 2) { l.iter().map(|i| vec![*i]).collect() } else { vec![l.repeat(r.pick(&[1usize, 1, 2, 3]))] };
            s.quantum = if s.clients.len() > 1 { quantum(&mut r) } else { 0 };
            if r.chance(1, 4) {
                s.alloc_fail = Some(r.below(6) as u64);
            }
            noise(&mut r, &mut s);
        }
        "C12" => {
            s.par = true;
            let n = r.pick(&[1usize, 1, 2, 3, 5]);
            let c = gen::call(&mut r, op, true);
            s.calls.push(c);
            while s.calls.len() < n {
                let k = r.below(s.calls.len());
                let c = if r.chance(1, 6) {
                    let o = r.below(N_OPS);
                    gen::call(&mut r, o, true)
                } else {
                    near(&mut r, &s.calls[k].clone(), true)
                };
                s.calls.push(c);
            }
            // samples fit their depth: what lies beyond has no meaning that an arithmetic check could respect
            for c in s.calls.iter_mut() {
                let o = c.spec();
                let narrow = |p: &PlaneSpec| p.role == Role::Src && (p.elem == Elem::I16 || p.elem == Elem::U16 && !p.msb && (o.has(DEPTH) || p.bits < 16));
                if c.content == 3 && o.planes.iter().any(narrow) {
                    c.content = 0;
                }
            }
            share(&mut r, &mut s.calls, false);
            for i in 0..n {
                let depth = |c: &Call, p: usize| (if c.spec().has(DEPTH) { c.depth } else { c.spec().planes[p].bits }, c.spec().planes[p].elem, c.spec().planes[p].msb, c.spec().planes[p].be);
                for p in 0..s.calls[i].pl.len() {
                    if s.calls[i].pl[p].share.is_some_and(|(a, q)| depth(&s.calls[a as usize], q as usize) != depth(&s.calls[i], p)) {
                        s.calls[i].pl[p].share = None;
                    }
                }
            }
            for k in 0..n {
                if r.chance(1, 5) && s.calls[k].pl.iter().all(|p| p.share.is_none()) {
                    let good = s.calls[k].clone();
                    let kind = geometry_fault(&mut r, &mut s.calls[k]);
                    if matches!(crate::exec::fit(&s.calls[k]), crate::exec::Fit::Reject) {
                        s.faults.push((k, kind));
                    } else {
                        s.calls[k] = good;
                    }
                }
            }
            s.clients = if n > 1 && r.chance(1, 3) { (0..n).map(|i| vec![i]).collect() } else { vec![(0..n).collect()] };
            s.quantum = if s.clients.len() > 1 { quantum(&mut r) } else { 0 };
            noise(&mut r, &mut s);
        }
        "C09" => {
            let n = if r.chance(1, 12) { r.range(5, 10) } else { r.pick(&[2usize, 2, 3, 4]) };
            let mut c = gen::call(&mut r, op, true);
            small(&mut c, if n > 4 { 200 } else { 1200 });
            s.calls.push(c);
            while s.calls.len() < n {
                let k = r.below(s.calls.len());
                let mut c = if r.chance(1, 6) {
                    let o = r.below(N_OPS);
                    gen::call(&mut r, o, true)
                } else {
                    near(&mut r, &s.calls[k].clone(), true)
                };
                small(&mut c, 1200);
                s.calls.push(c);
            }
            share(&mut r, &mut s.calls, false);
            s.clients = (0..n).map(|i| vec![i]).collect();
            s.quantum = quantum(&mut r);
            s.insn = r.pick(&[0u32, 0, 2]);
            s.watch = r.chance(1, 3) as u32;
            // where they stop: anywhere, all in about the same place, or towards the end of the call
            let (how, same) = (r.below(4), r.below(1000));
            let m = if r.chance(1, 3) { n - 1 } else { r.range(1, n - 1) };
            for k in 0..m {
                let at = match how {
                    0 => same,
                    1 => (same + r.below(20)).min(999),
                    2 => { let e = r.range(1, 9); 1000 - r.below(1 << e).max(1) }
                    _ => r.below(1000),
                };
                s.freezes.push((k, at as u32, u64::MAX));
            }
            noise(&mut r, &mut s);
        }
        "C10" => {
            let c = gen::call(&mut r, op, true);
            s.calls.push(c);
            if r.chance(1, 3) {
                let c = near(&mut r, &s.calls[0].clone(), true);
                s.calls.push(c);
            }
            if r.chance(1, 4) {
                let k = s.calls.len() - 1;
                let good = s.calls[k].clone();
                geometry_fault(&mut r, &mut s.calls[k]);
                if !matches!(crate::exec::fit(&s.calls[k]), crate::exec::Fit::Reject) {
                    s.calls[k] = good;
                }
            }
            s.clients = vec![(0..s.calls.len()).collect()];
            match r.below(3) {
                0 => {
                    // the same calls again and again
                    let l: Vec<usize> = (0..s.calls.len()).collect();
                    s.clients = vec![l.repeat(if r.chance(1, 20) { r.range(5, 40) } else { r.range(2, 4) })];
                }
                1 => s.alloc_fail = Some(0),
                _ => s.alloc_fail = Some(r.below(12) as u64),
            }
            noise(&mut r, &mut s);
        }
        _ => {}
    }
    s
}
fn fit_faulty(c: &Call) -> bool {
    crate::exec::fit(c) != crate::exec::Fit::Exact
}
/// Makes the geometry of the call wrong (or merely unusual); returns the kind.
pub fn geometry_fault(r: &mut Rng, c: &mut Call) -> String {
    let np = c.pl.len();
    let p = r.below(np);
    let (row, rows) = c.geom(p);
    match r.below(16) {
        0..=4 => {
            // a truncated plane
            let need = c.pl[p].stride as usize * (rows - 1) + row;
            c.pl[p].len = match r.below(5) {
                0 => need as u32 - 1,
                1 => 0,
                2 => (c.pl[p].stride as usize * (rows - 1)).min(need - 1) as u32,
                3 => (need - 1 - r.below(row.min(need))) as u32,
                _ => r.below(need) as u32,
            };
            "truncated".into()
        }
        5 | 6 => {
            c.pl[p].stride = match r.below(3) {
                0 => row as u32 - 1,
                1 => 0,
                _ => r.below(row) as u32,
            };
            "stride".into()
        }
        7 => {
            let k = if c.spec().has(TWOIMG) { r.below(2) } else { 0 };
            if r.chance(1, 2) { c.w[k] = 0 } else { c.h[k] = 0 }
            if r.chance(1, 3) {
                c.w = [0; 2];
            }
            "zero".into()
        }
        8 | 9 => {
            if c.spec().has(TWOIMG) {
                // the two images disagree, each is well-formed
                let k = r.below(2);
                if r.chance(1, 2) {
                    c.w[k] += r.range(1, 4) as u32;
                } else {
                    c.h[k] += r.range(1, 4) as u32;
                }
                let pl = c.pl.clone();
                c.set_default_planes();
                for (a, b) in c.pl.iter_mut().zip(pl) {
                    a.place = b.place;
                    a.off = b.off;
                    a.stale = b.stale;
                }
                return "mismatch".into();
            }
            // mid-stream resolution change: the descriptor tells a new size, the buffers are the old ones
            let d = gen::dims(r);
            c.w = [d.0; 2];
            c.h = [d.1; 2];
            "descriptor".into()
        }
        10 => {
            let d = gen::dims(r);
            if r.chance(1, 2) { c.w = [c.w[0] + 1 + d.1; 2] } else { c.h = [c.h[0] + 1 + r.below(3) as u32; 2] }
            "descriptor".into()
        }
        11 | 12 => {
            let v = r.pick(&[0xffff_ffffu32, 0x8000_0000, 0x4000_0001, 0x5555_5556, 0x2000_0000, 65_536, 0xffff_fffe, 0x4000_0000]);
            match r.below(4) {
                0 => c.w = [v; 2],
                1 => c.h = [v; 2],
                2 => {
                    c.w = [v; 2];
                    c.h = [r.pick(&[v, 2, 65_536]); 2];
                }
                _ => c.pl[p].stride = v,
            }
            "huge".into()
        }
        13 | 14 => {
            for q in 0..np {
                if c.can_pad(q) && (q == p || r.chance(1, 2)) {
                    let g = c.geom(q);
                    if r.chance(1, 2) {
                        c.set_stride(q, r.range(1, 40));
                    }
                    c.pl[q].len = c.pl[q].stride * (g.1 as u32 - 1) + g.0 as u32;
                }
            }
            "tight".into()
        }
        _ => {
            for q in 0..np {
                if q == p || r.chance(1, 3) {
                    let st = c.pl[q].stride as usize;
                    c.pl[q].len += r.range(1, st * 5 / 2 + 1) as u32;
                }
            }
            "oversized".into()
        }
    }
}
/// How cases are made and which count as non-trivial and distinct.
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "Each run draws a function, an image, a pool size, whether the callers are tasks of the pool, worker stalls and a schedule for the rayon build and compares with the sequential build. Non-trivial: the library started threads and control moved between them more than twice; distinct: hash of the whole schedule (who ran, up to which step, why control moved), the function and the end of the process.",
        "C02" => "Each run draws two to six callers with equal, nearly equal or unrelated calls, some on the same source buffers, and a schedule. Non-trivial: control moved between callers more often than there are callers; distinct: hash of the whole schedule, the first function and the end of the process.",
        "C03" => "Each run draws a history of up to 300 calls in one process, buffers reused, with garbage in destinations, source padding, stacks and heap, and odd clock and random values. Non-trivial: more than one call; distinct: hash of functions, steps and decisions.",
        "C04" => "Each run draws calls and the instant (step, single instruction, or right after the first write outside the destinations) at which the process dies or its memory is refused, then fresh processes retry over what is left. Distinct: hash of functions, steps at death and schedules.",
        "C05" => "Each run places images at inaccessible pages, makes sources read-only or lets a neighbour write next to the images at preemption points. Non-trivial: sources guarded or the neighbour wrote; distinct: hash of functions, steps and schedules.",
        "C07" => "Each run gives one to three frames, whole or cut into bands, to one to four machines of different CPU models, each a process of its own; in half of the runs machines die at a seeded instant and the next one does their unfinished work again on what they left. Non-trivial: more than one machine; distinct: hash of function, steps and schedules of the last process.",
        "C06" => "Each run cuts a frame into bands of an even number of rows, converted in random order by one to four callers, in a share of runs with a crash and a retry. Non-trivial: more than one band; distinct: hash of function, steps and schedules.",
        "C14" => "Each run gives one to three frames, whole or cut into bands, to one to three machines whose CPUs and builds of the library (all features, the default features, no back ends) leave them the same back ends; in a third of the runs machines die at a seeded instant and the next one does their unfinished work again. The images are those of the full build to the last bit. Non-trivial: the processes ran; distinct: hash of function, steps and schedules of the last process.",
        "C11" => "Each run gives one to six frames of one function, with every parameter drawn afresh, whole or cut into bands, to one to three machines of different CPU models, each a process of its own; in half of the runs machines die at a seeded instant and the next one does their unfinished work again on what they left. Every sample of the result is compared with the executable model. Non-trivial: all; distinct: hash of function, steps and schedules of the last process.",
        "C13" => "Each run is a session of one to three calls by one or more interleaved callers, sources or destinations or both in images that the library allocated on a dirty heap, in a share of runs with malformed images, or with every allocation from a seeded one on refused. Non-trivial: library images or check_constraints take part; distinct: hash of functions, steps and schedules.",
        "C12" => "Each run is a session of one to five calls by one or more interleaved callers in the build with overflow checks and debug assertions, some calls with a geometry to be refused; status and bytes are compared with the release build's. Non-trivial: all; distinct: hash of functions, steps and schedules.",
        "C08" => "Each run is a session of calls some of which have a faulty geometry (truncated or oversized planes, short strides, empty, mismatched or huge images, a descriptor that changed under the buffers). Non-trivial: at least one fault; distinct: hash of function, steps and decisions.",
        "C09" => "Each run freezes one or more callers for ever at a random step while the others go on. Non-trivial: a caller was in fact frozen inside its call; distinct: hash of functions and schedules.",
        _ => "Each run repeats calls, or refuses every allocation from a random one on. Distinct: hash of functions, steps and decisions.",
    }
}
