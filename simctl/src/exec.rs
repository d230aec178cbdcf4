//! Carries out one scenario and judges it.
use crate::arena::*;
use crate::fleet;
use crate::model;
use crate::known::Known;
use crate::node::*;
use crate::prng::*;
use crate::sched::{self, *};
use crate::scn::*;
use crate::spec::*;
use crate::stats::*;
use crate::world::*;

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Inconclusive(String),
    /// class, description
    Bad(String, String),
}
use Out::*;

/// heap that a conversion may use whatever the image
pub const SMALL_HEAP: u64 = 2048;

pub struct Ctx {
    pub seq: Node,
    pub par: Option<Node>,
    /// the build without back ends (C14)
    pub bare: Option<Node>,
    pub models: Vec<Cpu>,
    pub stats: &'static Stats,
    pub known: Vec<Known>,
    pub tape_used: u64,
    pub sig: u64,
    /// log what happens (replay)
    pub verbose: bool,
}

/// Where every plane of every call lives; a shared plane lives where its owner does.
pub struct Lay {
    pub bufs: Vec<Vec<Buf>>,
    pub own: Vec<Vec<bool>>,
    pub nslots: usize,
}
pub fn layout(calls: &[Call]) -> Option<Lay> {
    let mut l = Lay { bufs: vec![], own: vec![], nslots: 0 };
    for (i, c) in calls.iter().enumerate() {
        let mut b = vec![];
        let mut o = vec![];
        for p in 0..c.pl.len() {
            if c.plane_bytes(p) > SLOT - 2 * PAGE {
                return None;
            }
            let own = match c.pl[p].share {
                Some((a, q)) => {
                    let (a, q) = (a as usize, q as usize);
                    let ok = a < i && q < calls[a].pl.len() && calls[a].pl[q].share.is_none() && calls[a].plane_bytes(q) == c.plane_bytes(p) && calls[a].spec().planes[q].role == c.spec().planes[p].role;
                    if ok {
                        let x: &Buf = &l.bufs[a][q];
                        let mut y = c.buf(p, x.slot);
                        y.off = x.off;
                        b.push(y);
                    }
                    !ok
                }
                None => true,
            };
            if own {
                b.push(c.buf(p, l.nslots));
                l.nslots += 1;
            }
            o.push(own);
        }
        l.bufs.push(b);
        l.own.push(o);
    }
    if l.nslots > REF_SLOT {
        return None;
    }
    Some(l)
}
/// The initial content of plane `p` of call `i`, sharing followed.
fn initial(calls: &[Call], l: &Lay, i: usize, p: usize) -> Vec<u8> {
    if l.own[i][p] {
        return calls[i].content(p);
    }
    let (a, q) = calls[i].pl[p].share.unwrap();
    calls[a as usize].content(q as usize)
}

fn signal_text(r: &Report) -> String {
    format!("signal {} at address {:#x} in call {}", r.signo, r.signal_addr, r.signal_call)
}

/// How the geometry of a call compares with what the descriptor promises.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fit {
    Exact,
    Lenient,
    Reject,
    Empty,
}
pub fn fit(c: &Call) -> Fit {
    let s = c.spec();
    let two = s.has(TWOIMG);
    let n = if two { 2 } else { 1 };
    if (0..n).any(|i| c.w[i] == 0 || c.h[i] == 0) {
        // nothing to do: refuse or do nothing
        return if two && (c.w[0] != c.w[1] || c.h[0] != c.h[1]) { Fit::Reject } else { Fit::Empty };
    }
    if (two && (c.w[0] != c.w[1] || c.h[0] != c.h[1])) {
        return Fit::Reject;
    }
    let mut f = Fit::Exact;
    for p in 0..c.pl.len() {
        let (r, n) = c.geom(p);
        let (r, n) = (r as u128, n as u128);
        let (st, len) = (c.pl[p].stride as u128, c.pl[p].len as u128);
        if st < r || len < st * (n - 1) + r {
            return Fit::Reject;
        }
        if len != st * n || (st != r && (!c.can_pad(p) || (s.fam == "rotate"))) {
            f = Fit::Lenient;
        }
    }
    f
}
/// In which way the buffers of an acceptable call are unusual.
fn unusual(c: &Call) -> &'static str {
    let d = |f: &dyn Fn(u64, u64) -> bool| (0..c.pl.len()).any(|p| f(c.pl[p].len as u64, c.pl[p].stride as u64 * c.geom(p).1 as u64));
    match (d(&|a, b| a < b), d(&|a, b| a > b)) {
        (true, false) => "tight",
        (false, true) => "oversized",
        (true, true) => "tight+oversized",
        _ => "none",
    }
}
/// The well-formed call with the same rows.
fn normal(c: &Call) -> Call {
    let mut d = c.clone();
    for p in 0..d.pl.len() {
        d.pl[p].len = d.pl[p].stride * c.geom(p).1 as u32;
    }
    d
}

/// The calls that convert `c` in bands of rows ending at `edges`, and where their planes lie.
fn split(c: &Call, edges: &[u32], l: &Lay) -> Option<(Vec<Call>, Lay)> {
    let nb = edges.len();
    if nb == 0 || *edges.last().unwrap() != c.h[0] || (0..nb - 1).any(|i| edges[i] % 2 != 0 || edges[i] == 0 || edges[i] >= edges[i + 1]) {
        return None;
    }
    let mut calls = vec![];
    let mut bl = Lay { bufs: vec![], own: vec![], nslots: l.nslots };
    for b in 0..nb {
        let (y, e) = (if b == 0 { 0 } else { edges[b - 1] }, edges[b]);
        let mut d = c.clone();
        d.h = [e - y; 2];
        let mut bb = l.bufs[0].clone();
        for p in 0..bb.len() {
            let sy = c.spec().planes[p].sy;
            let (y0, y1) = ((y >> sy) as usize, ((e + (1 << sy) - 1) >> sy) as usize);
            bb[p].off += y0 * bb[p].stride;
            bb[p].bytes = (y1 - y0) * bb[p].stride;
            bb[p].rows = y1 - y0;
            d.pl[p].len = (bb[p].bytes / c.spec().planes[p].elem.size()) as u32;
        }
        calls.push(d);
        bl.bufs.push(bb);
        bl.own.push(vec![true; c.pl.len()]);
    }
    Some((calls, bl))
}

fn hexdiff(c: &Call, p: usize, b: &Buf, i: usize, got: u8, want: u8) -> String {
    let (y, x) = if b.stride == 0 { (0, i) } else { (i / b.stride, i % b.stride) };
    format!("{}: plane {p} row {y} byte {x} of {} rows of {} bytes (stride {}): {got:#04x}, expected {want:#04x}", c.spec().name, b.rows, b.row, b.stride)
}

impl Ctx {
    pub fn cpu(&self, name: &str) -> Option<u64> {
        self.models.iter().find(|m| m.name == name).map(|m| m.mask)
    }
    fn log(&self, s: String) {
        if self.verbose {
            println!("  {s}");
        }
    }
    fn account(&mut self, key: u64) {
        let r = report();
        let s = self.stats;
        s.add("processes", 1);
        s.add("steps", r.steps);
        s.add("switches", r.switches);
        s.add("preemptions", r.preempts);
        s.add("instruction_preemptions", r.insn_preempts);
        s.add("instructions_stepped", r.insn_steps);
        s.add("static_accesses_seen", r.watch_hits);
        s.add("futex_blocks", r.blocks);
        s.add("futex_wakes", r.wakes);
        s.add("yields", r.yields);
        s.add("threads_started", r.threads);
        s.add("stalls", r.freezes);
        s.add("stalls_ended", r.thaws);
        s.add("crashes", r.crashed);
        s.add("alloc_calls", r.allocs);
        s.add("alloc_failures", r.alloc_fails);
        s.add("clock_reads", r.clock_reads);
        s.add("random_reads", r.random_reads);
        s.add("neighbour_writes", r.neighbour_writes);
        self.tape_used = self.tape_used.max(r.tape_used);
        self.sig = mix(self.sig ^ r.sig, r.steps ^ key);
        if self.verbose {
            println!(
                "  process: {} steps, {} switches, {} preemptions ({} inside an instruction sequence), {} stalls, {} crash, {} allocation failures, schedule signature {:016x}",
                r.steps, r.switches, r.preempts, r.insn_preempts, r.freezes, r.crashed, r.alloc_fails, r.sig
            );
        }
    }
    fn run(&mut self, build: usize, p: &Plan) -> i32 {
        let node = match build {
            0 => &self.seq,
            1 => self.par.as_ref().unwrap(),
            _ => self.bare.as_ref().unwrap(),
        };
        let e = unsafe { sched::run(node, p) };
        let key = mix(p.calls.first().map_or(0, |c| c.op as u64), e as u64);
        self.account(key);
        self.log(format!("exit {e}"));
        e
    }
    fn refs(&mut self, s: &Scn, l: &Lay, cpu: u64, stale: Option<u8>) -> Vec<Ref> {
        s.calls
            .iter()
            .enumerate()
            .map(|(i, c)| {
                self.stats.add("processes", 1);
                let src: Vec<Option<Vec<u8>>> = (0..c.pl.len()).map(|p| if l.own[i][p] || c.spec().planes[p].role == Role::Dst { None } else { Some(initial(&s.calls, l, i, p)) }).collect();
                let r = reference(&self.seq, c, cpu, stale, &src);
                self.stats.add("steps", r.steps);
                r
            })
            .collect()
    }
    fn plan(&self, s: &Scn, cpu: u64, l: &Lay, refs: &[Ref]) -> Plan {
        let total: u64 = s.clients.iter().flatten().map(|i| refs[*i].steps.min(1 << 32)).sum();
        let one: u64 = refs.iter().map(|r| r.steps.min(1 << 32)).max().unwrap_or(0);
        let mut p = Plan::alone(s.calls[0].raw(&l.bufs[0]), cpu);
        p.clients = s.clients.clone();
        p.calls = s.calls.iter().zip(&l.bufs).map(|(c, b)| c.raw(b)).collect();
        p.tape = s.tape.clone();
        p.quantum = s.quantum;
        p.insn = s.insn;
        p.watch = s.watch != 0;
        p.crash = s.crash.map(|(m, k)| ((total * m as u64 / 1000).max(1), k));
        p.freezes = s.freezes.iter().map(|(a, m, d)| (*a, (one * *m as u64 / 1000).max(1), *d)).collect();
        p.alloc_fail = s.alloc_fail;
        p.heap_seed = s.heap_seed;
        p.stack_fill = s.stack_fill;
        p.pool = s.pool.min(33);
        p.nested = s.nested;
        p.clock_seed = s.clock_seed;
        p.workers = s.workers;
        let stall: u64 = p.freezes.iter().map(|f| if f.2 == u64::MAX { 0 } else { f.2 }).sum();
        p.max_steps = total * 8 + stall * 4 + 3_000_000;
        p
    }

    pub fn exec(&mut self, s: &Scn) -> Out {
        self.tape_used = 0;
        self.sig = 0;
        let Some(cpu) = self.cpu(&s.cpu) else { return Inconclusive(format!("this host cannot play a {}", s.cpu)) };
        if s.calls.is_empty() || s.clients.iter().flatten().any(|i| *i >= s.calls.len()) || s.calls.len() > MAXCALL {
            return Inconclusive("bad scenario".into());
        }
        if s.par && self.par.is_none() {
            return Inconclusive("no parallel build".into());
        }
        for c in &s.calls {
            self.stats.ops[c.op].store(1, std::sync::atomic::Ordering::Relaxed);
        }
        let o = match s.prop.as_str() {
            "C04" => self.crashes(s, cpu),
            "C06" => self.bands(s, cpu),
            "C07" | "C11" | "C14" => self.fleet(s),
            "C08" => self.geometry(s, cpu),
            _ => self.calls(s, cpu),
        };
        if self.lively(s) {
            self.stats.mark(self.sig);
        }
        o
    }

    /// The run met what the property is about; the last process' report is still there.
    fn lively(&self, s: &Scn) -> bool {
        let r = report();
        match s.prop.as_str() {
            "C01" => r.threads > 0 && r.switches > 2,
            "C02" => r.switches > s.clients.len() as u64,
            "C03" => s.clients[0].len() > 1,
            "C04" => self.sig != 0,
            "C05" => r.neighbour_writes > 0 || !s.racer,
            "C06" => s.bands.len() > 1,
            "C07" => self.sig != 0 && s.fleet.len() > 1,
            "C11" | "C14" => self.sig != 0,
            "C12" => r.steps > 0,
            "C13" => s.calls.iter().any(|c| c.own != 0),
            "C08" => !s.faults.is_empty(),
            "C09" => r.freezes > 0,
            _ => true,
        }
    }

    /// Places the initial content; returns it (owners only).
    fn fill(&mut self, s: &Scn, l: &Lay, pad_noise: bool) -> Vec<Vec<Vec<u8>>> {
        let mut v = vec![];
        for (i, c) in s.calls.iter().enumerate() {
            let mut w = vec![];
            for p in 0..c.pl.len() {
                if !l.own[i][p] {
                    w.push(vec![]);
                    continue;
                }
                let b = &l.bufs[i][p];
                let mut x = c.content(p);
                if pad_noise && c.spec().planes[p].role == Role::Src {
                    if b.stride <= b.row && l.bufs.iter().flatten().filter(|y| y.slot == b.slot).count() == 1 {
                        place(b, &x);
                        w.push(x);
                        continue;
                    }
                    let noise = random_bytes(mix(s.heap_seed, 31 + p as u64), x.len());
                    for k in 0..x.len() {
                        let any = l.bufs.iter().flatten().any(|y| y.slot == b.slot && y.is_pixel(k));
                        if !any {
                            x[k] = noise[k];
                        }
                    }
                }
                if c.spec().planes[p].role == Role::Dst {
                    self.stats.add("stale_buffers", 1);
                }
                place(b, &x);
                w.push(x);
            }
            v.push(w);
        }
        v
    }

    /// Exit codes that are violations whatever the property; None when the process ended by itself.
    fn exit_out(&self, e: i32) -> Option<Out> {
        let r = report();
        match e {
            EXIT_OK | EXIT_CRASH => None,
            EXIT_SIGNAL => Some(Bad("signal".into(), format!("the process died of {}", signal_text(r)))),
            EXIT_DEADLOCK => Some(Bad("deadlock".into(), "every thread waits for another one".into())),
            EXIT_LIVELOCK => Some(Bad("livelock".into(), format!("no end after {} steps", r.steps))),
            x if x > 128 => Some(Bad("signal".into(), format!("the process was killed by signal {}", x - 128))),
            x => Some(Inconclusive(format!("harness: exit {x}"))),
        }
    }

    /// The destination planes of a call that returned, against its reference.
    fn same(&self, c: &Call, bufs: &[Buf], want: &[Vec<u8>], pixels: bool) -> Option<String> {
        for p in 0..bufs.len() {
            if want[p].is_empty() {
                continue;
            }
            let d = bufs[p].data();
            if d == &want[p][..] {
                continue;
            }
            if let Some(i) = (0..d.len()).find(|i| d[*i] != want[p][*i] && (!pixels || bufs[p].is_pixel(*i))) {
                return Some(hexdiff(c, p, &bufs[p], i, d[i], want[p][i]));
            }
        }
        None
    }

    /// Sources unchanged; nothing outside the image changed.
    fn outside(&self, s: &Scn, l: &Lay, init: &[Vec<Vec<u8>>], only_sources: bool, raced: &dyn Fn(usize, usize) -> bool) -> Option<(String, String)> {
        for (i, c) in s.calls.iter().enumerate() {
            for p in 0..c.pl.len() {
                if !l.own[i][p] {
                    continue;
                }
                let b = &l.bufs[i][p];
                let src = c.spec().planes[p].role == Role::Src;
                let r = raced(i, p);
                let d = b.data();
                if src {
                    if let Some(k) = (0..d.len()).find(|k| d[*k] != init[i][p][*k] && !(r && !b.is_pixel(*k))) {
                        return Some(("source".into(), format!("source written: {}", hexdiff(c, p, b, k, d[k], init[i][p][k]))));
                    }
                } else if !only_sources && !r {
                    if let Some(k) = (0..d.len()).find(|k| !b.is_pixel(*k) && d[*k] != init[i][p][*k]) {
                        return Some(("outside".into(), format!("written outside the image: {}", hexdiff(c, p, b, k, d[k], init[i][p][k]))));
                    }
                }
                if !only_sources && !r {
                    if let Some(k) = canary(b) {
                        return Some(("outside".into(), format!("{}: byte {} from the start of plane {p} ({} bytes long) written", c.spec().name, k as i64 - b.off as i64, b.bytes)));
                    }
                }
            }
        }
        None
    }

    /// One process, any number of clients: C01, C02, C03, C05, C09, C10.
    fn calls(&mut self, s: &Scn, cpu: u64) -> Out {
        let prop = s.prop.as_str();
        let fresh = prop == "C03" || prop == "C05";
        let Some(l) = layout(&s.calls) else { return Inconclusive("does not fit the arena".into()) };
        let mut refs = self.refs(s, &l, cpu, if prop == "C03" { Some(7) } else { None });
        for (i, r) in refs.iter_mut().enumerate() {
            if r.exit == EXIT_SIGNAL && prop == "C05" {
                return Bad("signal".into(), format!("{} alone dies of a memory fault", s.calls[i].spec().name));
            }
            if r.exit == EXIT_LIVELOCK && prop == "C09" {
                return Bad("livelock".into(), format!("{} alone does not end", s.calls[i].spec().name));
            }
            if prop == "C12" && r.exit == EXIT_OK && r.status & 255 == STATUS_PANIC {
                return Bad("panic".into(), format!("{} (call {i}) panics, even without checks", s.calls[i].spec().name));
            }
            if r.exit != EXIT_OK || r.status & 255 == STATUS_PANIC {
                return Inconclusive(format!("{} alone: exit {} status {}", s.calls[i].spec().name, r.exit, r.status));
            }
            // a shared destination starts from its owner's content
            for p in 0..r.out.len() {
                if r.status != 0 && !r.out[p].is_empty() {
                    r.out[p] = vec![];
                }
            }
        }
        let init = self.fill(s, &l, prop == "C03");
        let mut plan = self.plan(s, cpu, &l, &refs);
        let mut raced = vec![vec![false; 8]; s.calls.len()];
        let mut shadow: Vec<u8> = vec![];
        if prop == "C05" {
            let mut racers: Vec<(usize, usize)> = vec![];
            for (i, c) in s.calls.iter().enumerate() {
                for p in 0..c.pl.len() {
                    if !l.own[i][p] {
                        continue;
                    }
                    let b = &l.bufs[i][p];
                    let base = slot(b.slot) as usize;
                    let (a, e) = b.span();
                    let src = c.spec().planes[p].role == Role::Src;
                    if src && (!s.racer || mix(c.seed, p as u64) & 1 == 0) {
                        plan.protect.push((base + a, e - a));
                        self.stats.add("guarded_sources", 1);
                        continue;
                    }
                    if !s.racer {
                        let pages = b.padding_pages();
                        self.stats.add("guarded_padding_rows", pages.len() as u64);
                        plan.protect.extend(pages.iter().map(|o| (base + o, PAGE)));
                        continue;
                    }
                    raced[i][p] = true;
                    racers.push((base + a, b.off - a));
                    racers.push((base + b.off + b.bytes, e - b.off - b.bytes));
                    if b.stride > b.row {
                        for y in 0..b.bytes.div_ceil(b.stride) {
                            let o = y * b.stride + b.row;
                            racers.push((base + b.off + o, (b.stride - b.row).min(b.bytes.saturating_sub(o))));
                        }
                    }
                }
            }
            racers.retain(|r| r.1 > 0);
            // the shadow survives the process: it lives in the arena's last slots
            let total: usize = racers.iter().map(|r| r.1).sum();
            if total > 7 * SLOT {
                return Inconclusive("too much to race for".into());
            }
            let sh = unsafe { shadow_area() };
            let mut o = 0;
            for (p, n) in &racers {
                unsafe {
                    std::ptr::copy_nonoverlapping(*p as *const u8, sh.add(o), *n);
                    plan.racers.push(Racer { ptr: *p as *mut u8, shadow: sh.add(o), len: *n });
                }
                o += n;
            }
            shadow = vec![0; 0];
        }
        let e = self.run(s.par as usize, &plan);
        let _ = &mut shadow;
        let r = report();
        let sharp_oom = e == EXIT_SIGNAL && r.signo == libc::SIGABRT && r.alloc_fails > 0;
        let oom_call = if sharp_oom { r.signal_call } else { -1 };
        if prop == "C13" {
            for (i, c) in s.calls.iter().enumerate() {
                if r.call[i].kept > 0 && r.alloc_fails == 0 {
                    return Bad("leak".into(), format!("{} kept {} bytes of heap when called again with images of the library", c.spec().name, r.call[i].kept));
                }
            }
        }
        if prop == "C10" {
            for (i, c) in s.calls.iter().enumerate() {
                let big = c.spec().fam == "sharp" || c.spec().fam == "rotate";
                if !big && r.call[i].peak > SMALL_HEAP {
                    return Bad("alloc".into(), format!("{} {}x{} took {} bytes of heap", c.spec().name, c.w[0], c.h[0], r.call[i].peak));
                }
                if r.call[i].kept > 0 && r.alloc_fails == 0 {
                    return Bad("leak".into(), format!("{} kept {} bytes of heap when called again", c.spec().name, r.call[i].kept));
                }
            }
        }
        if sharp_oom && oom_call >= 0 && (refs[oom_call as usize].allocs > 0 || s.calls[oom_call as usize].own & 3 != 0) {
            // a clean abort
        } else if let Some(o) = self.exit_out(e) {
            return o;
        }
        // a call that only fails because its memory was refused is judged by nothing else
        let frozen: Vec<usize> = s.freezes.iter().filter(|f| f.2 == u64::MAX).map(|f| f.0).collect();
        let mut last = std::collections::HashMap::new();
        for cl in &s.clients {
            for i in cl {
                for p in 0..l.bufs[*i].len() {
                    last.insert(l.bufs[*i][p].slot, *i);
                }
            }
        }
        for (ci, cl) in s.clients.iter().enumerate() {
            for i in cl {
                let c = &s.calls[*i];
                let k = &r.call[*i];
                if k.state != 2 {
                    if frozen.contains(&ci) || sharp_oom {
                        continue;
                    }
                    return Bad("progress".into(), format!("{} (call {i}) did not return", c.spec().name));
                }
                self.stats.add("calls_returned", 1);
                if k.status != 0 {
                    self.stats.add("calls_rejected", 1);
                }
                if (prop == "C10" || prop == "C13") && refs[*i].allocs > 0 && r.alloc_fails > 0 && k.status != refs[*i].status {
                    if k.status == 0 || k.status & 255 == STATUS_PANIC {
                        return Bad("status".into(), format!("{} (call {i}) ended with {} although its memory was refused", c.spec().name, k.status & 255));
                    }
                    continue;
                }
                if k.status != refs[*i].status || k.err != refs[*i].err || k.flips > 0 {
                    let what = match k.status & 255 {
                        STATUS_PANIC => "panic",
                        STATUS_OWN_CHECK => "alloc_check",
                        STATUS_OWN_ROOM => "alloc_room",
                        STATUS_CHECK => "check",
                        _ => "status",
                    };
                    return Bad(what.into(), format!("{} (call {i}) ended with {} here, {} alone", c.spec().name, k.status & 255, refs[*i].status & 255));
                }
                if prop == "C09" {
                    if k.blocks > 0 {
                        return Bad("blocked".into(), format!("{} (call {i}) waited for another caller", c.spec().name));
                    }
                    if k.steps > 2 * refs[*i].steps + 10_000 {
                        return Bad("steps".into(), format!("{} (call {i}) took {} steps, {} alone", c.spec().name, k.steps, refs[*i].steps));
                    }
                }
            }
        }
        for (i, c) in s.calls.iter().enumerate() {
            if r.call[i].state != 2 || ((prop == "C10" || prop == "C13") && r.call[i].status != 0) {
                continue;
            }
            for p in 0..c.pl.len() {
                if refs[i].out[p].is_empty() || last.get(&l.bufs[i][p].slot) != Some(&i) {
                    continue;
                }
                let shared_dst = !l.own[i][p] || s.calls.iter().enumerate().any(|(j, d)| j != i && (0..d.pl.len()).any(|q| l.bufs[j][q].slot == l.bufs[i][p].slot));
                let mut w = vec![vec![]; p + 1];
                w[p] = refs[i].out[p].clone();
                if let Some(t) = self.same(c, &l.bufs[i][..=p], &w, fresh || shared_dst) {
                    return Bad("pixels".into(), format!("call {i}, {t}"));
                }
            }
        }
        let rc = |i: usize, p: usize| raced[i][p];
        if let Some((k, t)) = self.outside(s, &l, &init, !(prop == "C05" || prop == "C10"), &rc) {
            return Bad(k, t);
        }
        for q in &plan.racers {
            let (a, b) = unsafe { (std::slice::from_raw_parts(q.ptr, q.len), std::slice::from_raw_parts(q.shadow, q.len)) };
            if a != b {
                let k = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap();
                let at = q.ptr as usize + k;
                for (i, c) in s.calls.iter().enumerate() {
                    for p in 0..c.pl.len() {
                        let y = &l.bufs[i][p];
                        let base = slot(y.slot) as usize;
                        if at >= base && at < base + SLOT {
                            return Bad("neighbour".into(), format!("{}: the neighbour of plane {p} lost what it wrote {} bytes from the start of the plane ({} rows of {} bytes, stride {}, {} bytes)", c.spec().name, at as i64 - base as i64 - y.off as i64, y.rows, y.row, y.stride, y.bytes));
                        }
                    }
                }
                return Bad("neighbour".into(), "memory next to an image was overwritten".into());
            }
        }
        Ok
    }

    /// C04: the process dies, or runs out of memory, at some instant; a fresh one does the work again.
    fn crashes(&mut self, s: &Scn, cpu: u64) -> Out {
        let Some(l) = layout(&s.calls) else { return Inconclusive("does not fit the arena".into()) };
        let refs = self.refs(s, &l, cpu, Some(7));
        for (i, r) in refs.iter().enumerate() {
            if r.exit != EXIT_OK || r.status & 255 == STATUS_PANIC {
                return Inconclusive(format!("{} alone: exit {} status {}", s.calls[i].spec().name, r.exit, r.status));
            }
        }
        let init = self.fill(s, &l, false);
        let no = |_: usize, _: usize| false;
        for life in 0..3 {
            let mut plan = self.plan(s, cpu, &l, &refs);
            match life {
                0 if s.crash.is_some_and(|c| c.1 == AT_FOREIGN_WRITE) => {
                    plan.crash = None;
                    for (i, c) in s.calls.iter().enumerate() {
                        for p in 0..c.pl.len() {
                            let b = &l.bufs[i][p];
                            let to = |r: Role| (0..s.calls.len()).any(|j| (0..l.bufs[j].len()).any(|q| l.bufs[j][q].slot == b.slot && s.calls[j].spec().planes[q].role == r));
                            if !l.own[i][p] || (to(Role::Src) && to(Role::Dst)) {
                                continue;
                            }
                            let base = slot(b.slot) as usize;
                            if c.spec().planes[p].role == Role::Src {
                                let (a, e) = b.span();
                                plan.traps.push((base + a, e - a));
                            } else {
                                plan.traps.extend(b.padding_pages().iter().map(|o| (base + o, PAGE)));
                            }
                        }
                    }
                    self.stats.add("foreign_writes_awaited", 1);
                }
                0 => {}
                1 => {
                    plan.crash = None;
                    plan.alloc_fail = None;
                    if let Some((m, k)) = s.crash2 {
                        let total: u64 = s.clients.iter().flatten().map(|i| refs[*i].steps.min(1 << 32)).sum();
                        plan.crash = Some(((total * m as u64 / 1000).max(1), k));
                    }
                }
                _ => {
                    plan.crash = None;
                    plan.alloc_fail = None;
                }
            }
            if life > 0 {
                self.stats.add("retries", 1);
                // a fresh process: different garbage on its heap and stacks
                plan.heap_seed = mix(s.heap_seed, life);
                plan.stack_fill = s.stack_fill.wrapping_add(life as u32);
            }
            let e = self.run(0, &plan);
            let r = report();
            let oom = e == EXIT_SIGNAL && r.signo == libc::SIGABRT && r.alloc_fails > 0;
            if !oom {
                if let Some(o) = self.exit_out(e) {
                    return o;
                }
            }
            if let Some((k, t)) = self.outside(s, &l, &init, false, &no) {
                return Bad(k, format!("after life {life}: {t}"));
            }
            let mut all = true;
            for i in s.clients.iter().flatten() {
                let k = &r.call[*i];
                let c = &s.calls[*i];
                if k.state != 2 {
                    all = false;
                    continue;
                }
                if life == 0 && r.alloc_fails > 0 && k.status != refs[*i].status && k.status != 0 && k.status & 255 != STATUS_PANIC {
                    all = false;
                    continue;
                }
                if k.status != refs[*i].status || k.err != refs[*i].err {
                    return Bad("status".into(), format!("life {life}: {} (call {i}) ended with {}, {} alone", c.spec().name, k.status & 255, refs[*i].status & 255));
                }
                if k.status == 0 {
                    if let Some(t) = self.same(c, &l.bufs[*i], &refs[*i].out, true) {
                        return Bad("pixels".into(), format!("life {life}, call {i}, {t}"));
                    }
                }
                self.stats.add("calls_returned", 1);
            }
            if all && life > 0 || (all && s.crash.is_none() && s.alloc_fail.is_none()) {
                return Ok;
            }
            if life == 2 && !all {
                return Bad("progress".into(), "a call of an undisturbed process did not return".into());
            }
        }
        Ok
    }

    /// C06: the frame is converted in bands of rows, in any order and by several callers.
    fn bands(&mut self, s: &Scn, cpu: u64) -> Out {
        let c = &s.calls[0];
        let whole = reference(&self.seq, c, cpu, None, &[]);
        self.stats.add("processes", 1);
        if whole.exit != EXIT_OK || whole.status != 0 {
            return Inconclusive(format!("{} alone: exit {} status {}", c.spec().name, whole.exit, whole.status));
        }
        let mut one = s.clone();
        one.calls.truncate(1);
        let Some(l) = layout(&one.calls) else { return Inconclusive("does not fit the arena".into()) };
        let init = self.fill(&one, &l, false);
        let Some((calls, bl)) = split(c, &s.bands, &l) else { return Inconclusive("bad bands".into()) };
        let edges = &s.bands;
        let nb = edges.len();
        self.stats.add("bands", nb as u64);
        let mut sub = s.clone();
        sub.calls = calls;
        if s.clients.iter().flatten().any(|i| *i >= 1 && *i >= nb) {
            return Inconclusive("bad bands".into());
        }
        // clients name bands; every band belongs to exactly one
        sub.clients = (0..s.workers.max(1) as usize).map(|_| vec![]).collect();
        let mut order: Vec<usize> = (0..nb).collect();
        let mut g = Rng::new(s.heap_seed);
        for i in (1..nb).rev() {
            order.swap(i, g.below(i + 1));
        }
        for (k, b) in order.iter().enumerate() {
            let n = sub.clients.len();
            sub.clients[k % n].push(*b);
        }
        sub.clients.retain(|x| !x.is_empty());
        let mut refs: Vec<Ref> = vec![];
        for d in &sub.calls {
            let mut r = whole.clone();
            r.steps = whole.steps * d.h[0] as u64 / c.h[0].max(1) as u64 + 100;
            refs.push(r);
        }
        let mut crashed = false;
        for life in 0..2 {
            let mut plan = self.plan(&sub, cpu, &bl, &refs);
            if life > 0 {
                plan.crash = None;
                self.stats.add("retries", 1);
            }
            let e = self.run(0, &plan);
            if let Some(o) = self.exit_out(e) {
                return o;
            }
            let r = report();
            for i in 0..nb {
                if r.call[i].state == 2 && r.call[i].status != 0 {
                    return Bad("status".into(), format!("{}: band {i} ended with {}, the whole frame is accepted", c.spec().name, r.call[i].status & 255));
                }
                self.stats.add("calls_returned", (r.call[i].state == 2) as u64);
            }
            if e == EXIT_CRASH {
                crashed = true;
                // only the bands that did not return are done again
                for cl in sub.clients.iter_mut() {
                    cl.retain(|i| r.call[*i].state != 2);
                }
                sub.clients.retain(|x| !x.is_empty());
                if !sub.clients.is_empty() {
                    continue;
                }
            }
            break;
        }
        let _ = crashed;
        if let Some(t) = self.same(c, &l.bufs[0], &whole.out, false) {
            return Bad("pixels".into(), format!("{nb} bands {:?}: {t}", edges));
        }
        if let Some((k, t)) = self.outside(&one, &l, &init, false, &|_, _| false) {
            return Bad(k, t);
        }
        Ok
    }

    /// C07: frames, whole or in bands of rows, are the work of machines with different CPUs; one that dies leaves its work to another.
    /// C11: the same, and what comes back is held against the model instead of against the plain machine.
    /// C14: the same, by machines with different builds of the library as well; what comes back is the same to the last bit.
    fn fleet(&mut self, s: &Scn) -> Out {
        let mut cpus = vec![];
        let by_build = s.prop == "C14";
        for n in &s.fleet {
            let (b, n) = n.split_once('/').unwrap_or(("full", n));
            let Some(c) = self.cpu(n) else { return Inconclusive(format!("this host cannot play a {n}")) };
            let b = match b {
                "full" => 0,
                "default" if by_build && self.par.is_some() => 1,
                "bare" if by_build && self.bare.is_some() => 2,
                _ => return Inconclusive(format!("no {b} build")),
            };
            cpus.push((b, c));
        }
        let Some(plain) = self.cpu(&s.cpu) else { return Inconclusive(format!("this host cannot play a {}", s.cpu)) };
        if cpus.is_empty() {
            return Inconclusive("no machines".into());
        }
        if by_build && (cpus.iter().any(|(b, c)| serves(*b, *c) != serves(0, plain)) || s.calls.iter().any(|c| c.mode != 0)) {
            return Inconclusive("these machines have different back ends".into());
        }
        let Some(l) = layout(&s.calls) else { return Inconclusive("does not fit the arena".into()) };
        let by_model = s.prop == "C11";
        let given = |c: &Call| if by_model { model::sources(c) } else if by_build { vec![None; c.pl.len()] } else { fleet::nominal(c) };
        let mut wants = vec![];
        for c in &s.calls {
            if by_model && s.crash.is_none() {
                wants.push(Ref { exit: EXIT_OK, status: 0, err: 0, steps: 4_000_000, allocs: 0, out: vec![] });
                continue;
            }
            let w = reference(&self.seq, c, plain, None, &given(c));
            self.stats.add("processes", 1);
            if w.exit != EXIT_OK || w.status & 255 == STATUS_PANIC {
                return Inconclusive(format!("{} alone: exit {} status {}", c.spec().name, w.exit, w.status));
            }
            wants.push(w);
        }
        let mut init = self.fill(s, &l, false);
        for (i, c) in s.calls.iter().enumerate() {
            for (p, v) in given(c).into_iter().enumerate() {
                if let (Some(v), true) = (v, l.own[i][p]) {
                    place(&l.bufs[i][p], &v);
                    init[i][p] = v;
                }
            }
        }
        let mut sub = s.clone();
        let mut bl = Lay { bufs: l.bufs.clone(), own: l.own.clone(), nslots: l.nslots };
        if !s.bands.is_empty() {
            if s.calls.len() != 1 || wants[0].status != 0 {
                return Inconclusive("bad bands".into());
            }
            let Some((calls, b)) = split(&s.calls[0], &s.bands, &l) else { return Inconclusive("bad bands".into()) };
            self.stats.add("bands", calls.len() as u64);
            sub.calls = calls;
            bl = b;
        }
        let n = sub.calls.len();
        let refs: Vec<Ref> = (0..n)
            .map(|i| {
                let w = &wants[if s.bands.is_empty() { i } else { 0 }];
                let mut r = w.clone();
                if !s.bands.is_empty() {
                    r.steps = w.steps * sub.calls[i].h[0] as u64 / s.calls[0].h[0].max(1) as u64 + 100;
                }
                r
            })
            .collect();
        // which machine does what
        let mut g = Rng::new(s.heap_seed);
        let mut jobs: Vec<Vec<usize>> = vec![vec![]; cpus.len()];
        for i in 0..n {
            jobs[(i + g.below(2)) % cpus.len()].push(i);
        }
        let mut by = vec![usize::MAX; n];
        let mut late: Vec<usize> = vec![];
        for m in 0..=cpus.len() {
            let mut mine: Vec<usize> = std::mem::take(&mut late);
            if m < cpus.len() {
                mine.extend(&jobs[m]);
            }
            for i in (1..mine.len()).rev() {
                mine.swap(i, g.below(i + 1));
            }
            if mine.is_empty() {
                continue;
            }
            let w = s.workers.max(1) as usize;
            sub.clients = (0..w).map(|k| mine.iter().copied().enumerate().filter(|x| x.0 % w == k).map(|x| x.1).collect()).collect();
            sub.clients.retain(|x: &Vec<usize>| !x.is_empty());
            // the machine that inherits the rest
            let on = if m < cpus.len() { m } else { g.below(cpus.len()) };
            sub.crash = if m == 0 { s.crash } else if m == 1 { s.crash2 } else { None };
            if m == cpus.len() {
                sub.crash = None;
            }
            let mut plan = self.plan(&sub, cpus[on].1, &bl, &refs);
            plan.heap_seed = mix(s.heap_seed, m as u64);
            self.stats.add("machines", 1);
            let e = self.run(cpus[on].0, &plan);
            if let Some(o) = self.exit_out(e) {
                return o;
            }
            let r = report();
            for i in mine {
                let k = &r.call[i];
                if k.state != 2 {
                    late.push(i);
                    continue;
                }
                self.stats.add("calls_returned", 1);
                by[i] = on;
                if by_model && k.status & 255 != 0 {
                    return Bad("status".into(), format!("{} of well-formed images ended with {} on a {}", s.calls[if s.bands.is_empty() { i } else { 0 }].spec().name, k.status & 255, s.fleet[on]));
                }
                if (k.status, k.err) != (refs[i].status, refs[i].err) {
                    return Bad("status".into(), format!("{} ended with {} on a {}, with {} on a {}", s.calls[if s.bands.is_empty() { i } else { 0 }].spec().name, k.status & 255, s.fleet[on], refs[i].status & 255, s.cpu));
                }
            }
            self.stats.add("handovers", late.len() as u64);
        }
        if !late.is_empty() {
            return Bad("progress".into(), "a call of an undisturbed machine did not return".into());
        }
        for (i, c) in s.calls.iter().enumerate() {
            if wants[i].status != 0 {
                continue;
            }
            if by_model {
                let got: Vec<Vec<u8>> = (0..c.pl.len()).map(|p| if c.spec().planes[p].role == Role::Src { vec![] } else { l.bufs[i][p].data().to_vec() }).collect();
                let Some(want) = model::expect(c, &init[i]) else { return Inconclusive(format!("no model of {}", c.spec().name)) };
                let x = model::apart(c, &want, &got);
                self.stats.add("modelled_samples", want.iter().map(|v| v.len() as u64).sum());
                if x.over > 0. {
                    let who = if s.bands.is_empty() { s.fleet[by[i]].clone() } else { format!("{} bands on {}", n, s.fleet.join(", ")) };
                    return Bad(x.what.into(), format!("{} {}x{}: sample {} of plane {} is {} on {who}, the model has {:.3}", c.spec().name, c.w[0], c.h[0], x.at, x.plane, x.got, x.want));
                }
                continue;
            }
            let got: Vec<Vec<u8>> = (0..c.pl.len()).map(|p| if wants[i].out[p].is_empty() { vec![] } else { l.bufs[i][p].data().to_vec() }).collect();
            let (a, b) = (fleet::samples(c, &wants[i].out), fleet::samples(c, &got));
            let (d, p, at) = fleet::apart(&a, &b);
            if d > if by_build { 0 } else { fleet::tolerance(c.spec()) } {
                let kind = "none";
                if let Some(n) = self.known.iter().position(|x| x.prop == s.prop && x.matches(c.spec().name, kind, "pixels")) {
                    self.stats.known[n].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    self.stats.add("known", 1);
                    continue;
                }
                let who = if s.bands.is_empty() { s.fleet[by[i]].clone() } else { format!("{} bands on {}", n, s.fleet.join(", ")) };
                return Bad("pixels".into(), format!("{} {}x{}: sample {at} of plane {p} is {} on a {}, {} on {who}", c.spec().name, c.w[0], c.h[0], a[p][at], s.cpu, b[p][at]));
            }
        }
        if by_model {
            return Ok;
        }
        if let Some((k, t)) = self.outside(s, &l, &init, false, &|_, _| false) {
            return Bad(k, t);
        }
        Ok
    }

    /// C08: calls whose buffers or descriptors do not fit, among calls that do.
    fn geometry(&mut self, s: &Scn, cpu: u64) -> Out {
        let mut place_calls = s.clone();
        let Some(l) = layout(&place_calls.calls) else { return Inconclusive("does not fit the arena".into()) };
        let _ = &mut place_calls;
        let init = self.fill(s, &l, false);
        let mut wants: Vec<(Fit, Option<Ref>)> = vec![];
        for (i, c) in s.calls.iter().enumerate() {
            let f = fit(c);
            for (k, n) in &s.faults {
                if *k == i {
                    self.stats.add(&format!("fault_{n}"), 1);
                }
            }
            if f == Fit::Reject || f == Fit::Empty {
                wants.push((f, None));
                continue;
            }
            let d = normal(c);
            if (0..d.pl.len()).any(|p| d.plane_bytes(p) > SLOT - 2 * PAGE) {
                wants.push((f, None));
                continue;
            }
            let r = reference(&self.seq, &d, cpu, None, &[]);
            self.stats.add("processes", 1);
            // a different initial content of the destination: what the call does not write shows
            if r.exit != EXIT_OK || r.status & 255 == STATUS_PANIC {
                return Bad(if r.exit == EXIT_OK { "panic" } else { "signal" }.into(), format!("{} with well-formed images (call {i}): exit {} status {}", c.spec().name, r.exit, r.status & 255));
            }
            wants.push((f, Some(r)));
        }
        let dummy: Vec<Ref> = s.calls.iter().map(|_| Ref { exit: 0, status: 0, err: 0, steps: 4_000_000, allocs: 0, out: vec![] }).collect();
        let plan = self.plan(s, cpu, &l, &dummy);
        let e = self.run(0, &plan);
        let r = report();
        let kind = |i: usize| s.faults.iter().find(|f| f.0 == i).map(|f| f.1.clone()).unwrap_or("none".into());
        if let Some(Bad(k, t)) = self.exit_out(e) {
            let i = r.signal_call.max(0) as usize;
            return Bad(k, format!("{} (call {i}, fault {}): {t}", s.calls[i.min(s.calls.len() - 1)].spec().name, kind(i)));
        }
        let mut known = vec![];
        for i in s.clients.iter().flatten() {
            let i = *i;
            let c = &s.calls[i];
            let k = &r.call[i];
            let fam = c.spec().fam;
            let mut bad = |class: &str, t: String| -> Option<Out> {
                if let Some(n) = self.known.iter().position(|x| x.prop == "C08" && wants[i].0 == Fit::Lenient && x.matches(fam, unusual(c), class)) {
                    known.push(n);
                    return None;
                }
                Some(Bad(class.into(), format!("call {i}, fault {}: {t}", kind(i))))
            };
            if k.state != 2 {
                if let Some(o) = bad("progress", format!("{} did not return", c.spec().name)) {
                    return o;
                }
                continue;
            }
            self.stats.add("calls_returned", 1);
            let st = k.status & 255;
            if st != 0 {
                self.stats.add("calls_rejected", 1);
            }
            if st == STATUS_PANIC {
                if let Some(o) = bad("panic", format!("{} panicked", c.spec().name)) {
                    return o;
                }
                continue;
            }
            if k.flips > 0 {
                return Bad("status".into(), format!("{} (call {i}) ended differently the second time", c.spec().name));
            }
            match wants[i].0 {
                Fit::Reject if st == 0 => {
                    if let Some(o) = bad("accepted", format!("{} accepted images that do not hold what the call names", c.spec().name)) {
                        return o;
                    }
                    continue;
                }
                Fit::Exact if st != 0 => {
                    if let Some(o) = bad("rejected", format!("{} rejected well-formed images with error {st}", c.spec().name)) {
                        return o;
                    }
                    continue;
                }
                _ => {}
            }
            // what the destination must hold now
            'planes: for p in 0..c.pl.len() {
                let b = &l.bufs[i][p];
                if c.spec().planes[p].role == Role::Src {
                    if b.data() != &init[i][p][..] {
                        if let Some(o) = bad("source", format!("{}: source plane {p} written", c.spec().name)) {
                            return o;
                        }
                    }
                } else {
                    let d = b.data();
                    let n = b.rows;
                    let want: Vec<u8> = if st != 0 || wants[i].0 == Fit::Empty {
                        init[i][p].clone()
                    } else if let Some(w) = &wants[i].1 {
                        // rows of the reference, everything else as it was
                        let mut v = init[i][p].clone();
                        for k in 0..v.len() {
                            if b.is_pixel(k) {
                                v[k] = w.out[p][k];
                            }
                        }
                        v
                    } else {
                        continue;
                    };
                    for k in 0..d.len() {
                        if d[k] == want[k] {
                            continue;
                        }
                        let class = if st != 0 {
                            "wrote though rejected"
                        } else if !b.is_pixel(k) {
                            if b.stride > 0 && k / b.stride >= n { "rows past the image" } else { "padding" }
                        } else if k / b.stride + 2 >= n {
                            "last rows"
                        } else {
                            "pixels"
                        };
                        if let Some(o) = bad(class, hexdiff(c, p, b, k, d[k], want[k])) {
                            return o;
                        }
                        if class == "pixels" {
                            continue 'planes;
                        }
                    }
                }
                if let Some(k) = canary(b) {
                    if let Some(o) = bad("outside", format!("{}: byte {} from the start of plane {p} written", c.spec().name, k as i64 - b.off as i64)) {
                        return o;
                    }
                }
            }
        }
        known.sort_unstable();
        known.dedup();
        for n in known {
            self.stats.known[n].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            self.stats.add("known", 1);
        }
        Ok
    }
}

static mut SHADOW: *mut u8 = std::ptr::null_mut();
unsafe fn shadow_area() -> *mut u8 {
    if SHADOW.is_null() {
        SHADOW = shared(7 * SLOT);
    }
    SHADOW
}
