//! Makes a violating scenario smaller, keeping the kind of violation.
use crate::exec::*;
use crate::prng::*;
use crate::scn::*;
use crate::world::*;
use std::time::Instant;

pub fn fails(c: &mut Ctx, s: &Scn, class: &str) -> bool {
    matches!(c.exec(s), Out::Bad(k, _) if k == class)
}
fn drop_call(s: &Scn, k: usize) -> Scn {
    let mut t = s.clone();
    t.calls.remove(k);
    for c in t.calls.iter_mut() {
        for p in c.pl.iter_mut() {
            if let Some((a, b)) = p.share {
                p.share = if a as usize == k { None } else if a as usize > k { Some((a - 1, b)) } else { Some((a, b)) };
            }
        }
    }
    for cl in t.clients.iter_mut() {
        cl.retain(|x| *x != k);
        for x in cl.iter_mut() {
            if *x > k {
                *x -= 1;
            }
        }
    }
    t.faults.retain(|f| f.0 != k);
    for f in t.faults.iter_mut() {
        if f.0 > k {
            f.0 -= 1;
        }
    }
    // clients without calls go, and their stalls with them
    let mut i = 0;
    while i < t.clients.len() {
        if t.clients[i].is_empty() && t.clients.len() > 1 {
            t.clients.remove(i);
            t.freezes.retain(|f| f.0 != i);
            for f in t.freezes.iter_mut() {
                if f.0 > i {
                    f.0 -= 1;
                }
            }
        } else {
            i += 1;
        }
    }
    t
}
fn resize(s: &Scn, k: usize, w: u32, h: u32) -> Option<Scn> {
    if s.faults.iter().any(|f| f.0 == k) {
        return None;
    }
    let mut t = s.clone();
    let c = &mut t.calls[k];
    let ex: Vec<i64> = (0..c.pl.len()).map(|p| c.pl[p].stride as i64 - c.geom(p).0 as i64).collect();
    if ex.iter().any(|e| *e < 0) {
        return None;
    }
    c.w = [w; 2];
    c.h = [h; 2];
    for p in 0..c.pl.len() {
        c.set_stride(p, ex[p] as usize);
    }
    if !t.bands.is_empty() {
        t.bands.retain(|b| *b < h);
        t.bands.push(h);
    }
    Some(t)
}

pub fn minimise(c: &mut Ctx, s0: &Scn, class: &str, secs: u64) -> Scn {
    let t0 = Instant::now();
    let over = || t0.elapsed().as_secs() >= secs;
    let mut s = s0.clone();
    if !fails(c, &s, class) {
        return s;
    }
    if let Tape::Seed(_) = s.tape {
        let mut t = s.clone();
        t.tape = Tape::List(s.tape.first(c.tape_used as usize));
        if fails(c, &t, class) {
            s = t;
        }
    }
    for round in 0..3 {
        let before = s.clone();
        let mut k = 0;
        while s.calls.len() > 1 && k < s.calls.len() && !over() {
            let t = drop_call(&s, k);
            if fails(c, &t, class) {
                s = t;
            } else {
                k += 1;
            }
        }
        // histories
        for j in 0..s.clients.len() {
            let mut n = s.clients[j].len() / 2;
            while n >= 1 && !over() {
                let mut o = 0;
                while o < s.clients[j].len() && s.clients[j].len() > 1 && !over() {
                    let mut t = s.clone();
                    let e = (o + n).min(t.clients[j].len());
                    t.clients[j].drain(o..e);
                    if !t.clients[j].is_empty() && fails(c, &t, class) {
                        s = t;
                    } else {
                        o += n;
                    }
                }
                n /= 2;
            }
        }
        let simple: Vec<Box<dyn Fn(&mut Scn)>> = vec![
            Box::new(|t| t.freezes.clear()),
            Box::new(|t| t.crash2 = None),
            Box::new(|t| t.crash = None),
            Box::new(|t| t.insn = 0),
            Box::new(|t| t.watch = 0),
            Box::new(|t| t.alloc_fail = None),
            Box::new(|t| t.heap_seed = 0),
            Box::new(|t| t.stack_fill = 0),
            Box::new(|t| t.pool = 0),
            Box::new(|t| t.nested = false),
            Box::new(|t| t.clock_seed = 0),
            Box::new(|t| t.workers = 1),
            Box::new(|t| t.workers = 2),
            Box::new(|t| t.racer = false),
            Box::new(|t| t.bands.clear()),
            Box::new(|t| {
                if t.fleet.len() > 1 {
                    t.fleet.remove(0);
                }
            }),
            Box::new(|t| t.fleet.truncate(1)),
            Box::new(|t| t.quantum = 0),
            Box::new(|t| t.crash = t.crash.map(|x| (x.0, 0))),
            Box::new(|t| {
                let b = t.bands.len();
                if b > 2 {
                    t.bands.drain(0..b - 2);
                }
            }),
        ];
        for f in simple {
            let mut t = s.clone();
            f(&mut t);
            if t != s && !over() && fails(c, &t, class) {
                s = t;
            }
        }
        let mut k = 0;
        while k < s.freezes.len() && !over() {
            let mut t = s.clone();
            t.freezes.remove(k);
            if fails(c, &t, class) {
                s = t;
            } else {
                k += 1;
            }
        }
        for k in 0..s.calls.len() {
            loop {
                let (w, h) = (s.calls[k].w[0], s.calls[k].h[0]);
                let mut done = true;
                for (a, b) in [(w / 2, h), (w, h / 2), (w.saturating_sub(1), h), (w, h.saturating_sub(1)), (w, h.saturating_sub(2))] {
                    if a == 0 || b == 0 || (a, b) == (w, h) || over() {
                        continue;
                    }
                    if let Some(t) = resize(&s, k, a, b) {
                        if fails(c, &t, class) {
                            s = t;
                            done = false;
                            break;
                        }
                    }
                }
                if done {
                    break;
                }
            }
            let easy: Vec<Box<dyn Fn(&mut Call)>> = vec![
                Box::new(|c| c.pl.iter_mut().for_each(|p| p.share = None)),
                Box::new(|c| {
                    if crate::exec::fit(c) != Fit::Reject {
                        for p in 0..c.pl.len() {
                            c.set_stride(p, 0);
                        }
                    }
                }),
                Box::new(|c| c.matrix = 0),
                Box::new(|c| c.range = 0),
                Box::new(|c| c.mode = 0),
                Box::new(|c| c.flag = 0),
                Box::new(|c| c.gamma = 0),
                Box::new(|c| c.order = 0),
                Box::new(|c| c.geo = 0),
                Box::new(|c| c.depth = 10),
                Box::new(|c| c.custom = 0),
                Box::new(|c| c.own &= !1),
                Box::new(|c| c.own &= !2),
                Box::new(|c| c.own &= !4),
                Box::new(|c| c.own &= !8),
                Box::new(|c| c.content = 4),
                Box::new(|c| c.pl.iter_mut().for_each(|p| p.stale = 0)),
                Box::new(|c| {
                    c.pl.iter_mut().for_each(|p| {
                        p.place = 0;
                        p.off = 0
                    })
                }),
            ];
            for f in easy {
                let mut t = s.clone();
                f(&mut t.calls[k]);
                if t != s && !over() && fails(c, &t, class) {
                    s = t;
                }
            }
        }
        // the schedule: drop the tail, then set decisions to "go on"
        if let Tape::List(v) = s.tape.clone() {
            let mut lo = 0;
            let mut hi = v.len();
            while lo < hi && !over() {
                let m = (lo + hi) / 2;
                let mut t = s.clone();
                t.tape = Tape::List(v[..m].to_vec());
                if fails(c, &t, class) {
                    hi = m;
                } else {
                    lo = m + 1;
                }
            }
            let mut t = s.clone();
            t.tape = Tape::List(v[..hi].to_vec());
            if fails(c, &t, class) {
                s = t;
            }
            if let Tape::List(mut v) = s.tape.clone() {
                let mut n = (v.len() / 2).max(1);
                loop {
                    let mut o = 0;
                    while o < v.len() && !over() {
                        let e = (o + n).min(v.len());
                        if v[o..e].iter().any(|x| *x != 0) {
                            let mut u = v.clone();
                            u[o..e].iter_mut().for_each(|x| *x = 0);
                            let mut t = s.clone();
                            t.tape = Tape::List(u.clone());
                            if fails(c, &t, class) {
                                v = u;
                                s = t;
                            }
                        }
                        o = e;
                    }
                    if n == 1 || over() {
                        break;
                    }
                    n /= 2;
                }
                while v.last() == Some(&0) {
                    v.pop();
                }
                let mut t = s.clone();
                t.tape = Tape::List(v);
                if fails(c, &t, class) {
                    s = t;
                }
            }
        }
        if s == before || over() || round == 2 {
            break;
        }
    }
    s
}
