//! The simulated process: real threads of which exactly one runs at a time, chosen by the tape. Preemption happens at
//! control-flow edges of the library (and, in some runs, a few machine instructions after one), at futex operations, at
//! thread creation and at sched_yield. The clock, the random source and the heap belong to the simulator.
use crate::arena::*;
use crate::node::*;
use crate::prng::*;
use libc::*;
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXA: usize = 48;
pub const MAXCALL: usize = 64;
pub const MAXTAPE: usize = 1 << 20;

pub const EXIT_OK: i32 = 0;
pub const EXIT_CRASH: i32 = 71;
pub const EXIT_SIGNAL: i32 = 72;
pub const EXIT_DEADLOCK: i32 = 73;
pub const EXIT_LIVELOCK: i32 = 74;
pub const EXIT_HARNESS: i32 = 75;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
enum St {
    Free,
    Ready,
    Blocked,
    Join,
    Frozen,
    Done,
}

struct Actor {
    st: St,
    turn: AtomicU32,
    addr: usize,
    deadline: u64,
    timed_out: bool,
    join: usize,
    thread: pthread_t,
    client: bool,
    steps: u64,
    freeze_at: u64,
    thaw_at: u64,
    call: i32,
    start: Option<extern "C" fn(*mut c_void) -> *mut c_void>,
    arg: *mut c_void,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CallRep {
    /// 0 not started, 1 started, 2 returned
    pub state: u32,
    pub status: i32,
    pub err: u64,
    pub steps: u64,
    pub invoked: u64,
    pub returned: u64,
    pub blocks: u32,
    pub allocs: u32,
    pub actor: u32,
    pub reads: u32,
    /// how often the same call ended differently from the time before
    pub flips: u32,
    pub times: u32,
    /// most heap bytes the call held at once, and bytes it kept the last time, when it had run before
    pub peak: u64,
    pub kept: u64,
}

/// What a simulated process leaves behind for the supervisor (shared memory).
#[repr(C)]
pub struct Report {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub insn_preempts: u64,
    pub watch_hits: u64,
    pub insn_steps: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub yields: u64,
    pub threads: u64,
    pub freezes: u64,
    pub thaws: u64,
    pub crashed: u64,
    pub allocs: u64,
    pub alloc_fails: u64,
    pub clock_reads: u64,
    pub random_reads: u64,
    pub neighbour_writes: u64,
    pub tape_used: u64,
    pub sig: u64,
    pub seq: u64,
    pub signo: i32,
    pub signal_actor: i32,
    pub signal_call: i32,
    pub signal_addr: u64,
    pub ncalls: u32,
    pub call: [CallRep; MAXCALL],
}

/// A racing owner of memory next to the image: at preemption points it writes there, and remembers what it wrote.
#[derive(Clone, Copy)]
pub struct Racer {
    pub ptr: *mut u8,
    pub shadow: *mut u8,
    pub len: usize,
}

pub struct Plan {
    /// per client: the calls it makes, as indices in `calls`
    pub clients: Vec<Vec<usize>>,
    pub calls: Vec<RawCall>,
    pub cpu: u64,
    pub tape: Tape,
    /// scheduling quantum profile: 0 = run until blocked, 1..=4 = shorter and shorter slices
    pub quantum: u32,
    /// in how many of 16 preemptions to move on by single instructions first
    pub insn: u32,
    /// the library's static data is inaccessible: every access is seen, and may be followed by a switch
    pub watch: bool,
    /// steps at which the whole process dies, and machine instructions after that step
    pub crash: Option<(u64, u32)>,
    /// crash right after the first write to one of these
    pub traps: Vec<(usize, usize)>,
    /// (thread: clients first, then the ones the library starts; own steps, for how many steps; u64::MAX = forever)
    pub freezes: Vec<(usize, u64, u64)>,
    /// allocations from this one on fail (counted over all client calls)
    pub alloc_fail: Option<u64>,
    pub heap_seed: u64,
    pub stack_fill: u32,
    /// callers convert within buffers of their own at addresses that never change, 1 + offset; 0: every call in its own place
    pub pool: u32,
    pub nested: bool,
    pub clock_seed: u64,
    pub workers: u32,
    pub racers: Vec<Racer>,
    pub protect: Vec<(usize, usize)>,
    pub max_steps: u64,
}
impl Plan {
    pub fn alone(call: RawCall, cpu: u64) -> Plan {
        Plan {
            clients: vec![vec![0]],
            calls: vec![call],
            cpu,
            tape: Tape::List(vec![]),
            quantum: 0,
            insn: 0,
            watch: false,
            crash: None,
            traps: vec![],
            freezes: vec![],
            alloc_fail: None,
            heap_seed: 0,
            stack_fill: 0,
            pool: 0,
            nested: false,
            clock_seed: 0,
            workers: 1,
            racers: vec![],
            protect: vec![],
            max_steps: 400_000_000,
        }
    }
}

struct Sim {
    cur: usize,
    n: usize,
    actors: [Actor; MAXA],
    budget: *mut i64,
    grant: i64,
    steps: u64,
    rep: *mut Report,
    rng: Rng,
    list: Vec<u32>,
    seeded: bool,
    used: usize,
    quantum: u32,
    insn: u32,
    watch: Vec<(usize, usize)>,
    libc: (usize, usize),
    watch_on: bool,
    watch_pending: bool,
    watch_here: bool,
    watch_left: u32,
    crash: Option<(u64, u32)>,
    traps: Vec<(usize, usize)>,
    insn_left: u64,
    insn_crash: bool,
    alloc_fail: Option<u64>,
    heap_seed: u64,
    heap_cur: usize,
    clock_seed: u64,
    clock_n: u64,
    racers: Vec<Racer>,
    max_steps: u64,
    pool: u32,
    nested: Option<Nested>,
    stack_fill: u32,
    node_call: Option<unsafe extern "C" fn(*mut RawCall) -> i32>,
    calls: Vec<RawCall>,
    clients: Vec<Vec<usize>>,
    text: (usize, usize),
    same: u32,
    freezes: Vec<(usize, u64, u64)>,
    /// heap bytes held per call in progress
    held: [i64; MAXCALL],
}
static mut SIM: *mut Sim = std::ptr::null_mut();
static mut ON: bool = false;

#[inline(always)]
fn s() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline(always)]
fn rep() -> &'static mut Report {
    unsafe { &mut *s().rep }
}

unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn fwait(p: &AtomicU32) {
    while p.swap(0, AcqRel) == 0 {
        raw6(SYS_futex, p as *const _ as usize, FUTEX_WAIT as usize | 128, 0, 0, 0, 0);
    }
}
unsafe fn fwake(p: &AtomicU32) {
    p.store(1, Release);
    raw6(SYS_futex, p as *const _ as usize, FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
}
pub unsafe fn die(code: i32) -> ! {
    raw6(SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    loop {}
}

/// Next decision of the tape.
fn draw() -> u32 {
    let s = s();
    let v = if s.used >= MAXTAPE {
        0
    } else if s.seeded {
        s.rng.next() as u32
    } else {
        s.list.get(s.used).copied().unwrap_or(0)
    };
    if s.used < MAXTAPE {
        s.used += 1;
        rep().tape_used = s.used as u64;
    }
    v
}

fn account() {
    let s = s();
    unsafe {
        let used = (s.grant - 1 - *s.budget).max(0);
        s.steps += used as u64;
        s.actors[s.cur].steps += used as u64;
        rep().steps = s.steps;
        s.grant = 0;
        *s.budget = -1;
    }
}

fn grant() {
    let s = s();
    let v = if s.quantum == 0 { 0 } else { draw() };
    let mut q: u64 = if v == 0 {
        20_000
    } else {
        let k = (v >> 8) as u64;
        match s.quantum {
            1 => 1 + k % 4000,
            2 => 1 + k % 400,
            3 => 1 + k % 40,
            _ => match v & 3 {
                0 => 1 + k % 4,
                1 => 1 + k % 30,
                2 => 1 + k % 300,
                _ => 1 + k % 3000,
            },
        }
    };
    // a long run is not cut up finely all the way
    let p = rep().preempts;
    if p > 3000 {
        q = q.max((p / 1000) * 200);
    }
    let a = &s.actors[s.cur];
    if let Some((c, _)) = s.crash {
        q = q.min(c.saturating_sub(s.steps)).max(1);
    }
    if a.freeze_at != u64::MAX && a.freeze_at > a.steps {
        q = q.min(a.freeze_at - a.steps);
    }
    s.grant = q as i64;
    unsafe { *s.budget = q as i64 - 1 };
}

fn switch_to(next: usize, note: u64) {
    let s = s();
    let me = s.cur;
    let r = rep();
    r.sig = (r.sig.rotate_left(5) ^ (next as u64) ^ (s.steps << 8) ^ (note << 60)).wrapping_mul(0x9e3779b97f4a7c15);
    if next != me {
        r.switches += 1;
        s.cur = next;
        grant();
        unsafe {
            let mine = &*(&s.actors[me].turn as *const AtomicU32);
            fwake(&s.actors[next].turn);
            fwait(mine);
        }
    } else {
        grant();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Why {
    Preempt,
    Yield,
    Block,
}

/// Chooses who runs next. The caller's own state is already set.
fn decide(why: Why) {
    let s = s();
    account();
    s.insn_left = 0;
    unsafe {
        if s.steps > s.max_steps {
            die(EXIT_LIVELOCK);
        }
        for i in 1..s.n {
            let a = &mut s.actors[i];
            if a.st == St::Frozen && a.thaw_at <= s.steps {
                a.st = St::Ready;
                rep().thaws += 1;
            }
        }
    }
    loop {
        let live = (1..s.n).any(|i| s.actors[i].client && !matches!(s.actors[i].st, St::Done | St::Free) && !(s.actors[i].st == St::Frozen && s.actors[i].thaw_at == u64::MAX));
        if !live {
            switch_to(0, 7);
            return;
        }
        let mut cand = [0usize; MAXA];
        let mut k = 0;
        let cur = s.cur;
        if why == Why::Preempt && s.actors[cur].st == St::Ready {
            cand[k] = cur;
            k += 1;
        }
        for j in 1..s.n {
            let i = if cur == 0 { j } else { 1 + (cur - 1 + j) % (s.n - 1) };
            if i != cur && s.actors[i].st == St::Ready {
                cand[k] = i;
                k += 1;
            }
        }
        if why != Why::Preempt && cur != 0 && s.actors[cur].st == St::Ready {
            cand[k] = cur;
            k += 1;
        }
        if k == 0 {
            // nobody can run: let simulated time pass to the next deadline
            let mut best = 0;
            for i in 1..s.n {
                let a = &s.actors[i];
                let d = match a.st {
                    St::Blocked => a.deadline,
                    St::Frozen => a.thaw_at,
                    _ => u64::MAX,
                };
                if d != u64::MAX && (best == 0 || d < s.actors[best].deadline.min(s.actors[best].thaw_at)) {
                    best = i;
                }
            }
            if best == 0 {
                unsafe { die(EXIT_DEADLOCK) };
            }
            let a = &mut s.actors[best];
            if a.st == St::Blocked {
                s.steps = s.steps.max(a.deadline);
                a.timed_out = true;
            } else {
                s.steps = s.steps.max(a.thaw_at);
                rep().thaws += 1;
            }
            a.st = St::Ready;
            continue;
        }
        let mut pick = if k == 1 { 0 } else { draw() as usize % k };
        if why == Why::Preempt && cand[pick] == cur {
            s.same += 1;
            if s.same > 200 && k > 1 {
                // weak fairness: a thread that never blocks does not keep the others out for ever
                pick = 1;
            }
        }
        if cand[pick] != cur {
            s.same = 0;
        }
        switch_to(cand[pick], why as u64);
        return;
    }
}

/// After a resumption: the current actor may have reached its freeze point.
fn freeze_check() {
    let s = s();
    let a = &mut s.actors[s.cur];
    if a.freeze_at != u64::MAX && a.steps >= a.freeze_at {
        a.freeze_at = u64::MAX;
        a.st = St::Frozen;
        a.thaw_at = if a.thaw_at == u64::MAX { u64::MAX } else { s.steps + a.thaw_at };
        rep().freezes += 1;
        decide(Why::Block);
    }
}

fn race() {
    let s = s();
    if s.racers.is_empty() {
        return;
    }
    for _ in 0..4 {
        let v = draw();
        if v == 0 {
            continue;
        }
        let r = &s.racers[v as usize % s.racers.len()];
        if r.len == 0 {
            continue;
        }
        let o = (v as usize >> 10) % r.len;
        unsafe {
            let b = (v >> 24) as u8 ^ *r.ptr.add(o) | 1;
            let b = if b == *r.ptr.add(o) { b ^ 0x55 } else { b };
            std::ptr::write_volatile(r.ptr.add(o), b);
            *r.shadow.add(o) = b;
        }
        rep().neighbour_writes += 1;
    }
}

unsafe fn start_stepping(n: u64) {
    s().insn_left = n;
    // room for edges crossed while single-stepping
    s().grant = 1 << 40;
    *s().budget = (1 << 40) - 1;
}

/// Called by the library at a control-flow edge when its slice is used up.
pub extern "C" fn hook() {
    unsafe {
        if !ON {
            // only the reference execution gets here: it ran far beyond any call's length
            die(EXIT_LIVELOCK);
        }
        account();
        let s = s();
        if let Some((c, m)) = s.crash {
            if s.steps >= c {
                if m == 0 {
                    rep().crashed += 1;
                    die(EXIT_CRASH);
                }
                s.insn_crash = true;
                start_stepping(m as u64);
                set_tf();
                return;
            }
        }
        rep().preempts += 1;
        if s.insn > 0 && rep().insn_steps < 4000 {
            let v = draw();
            if v != 0 && v % 16 < s.insn {
                start_stepping(1 + ((v >> 8) % 40) as u64);
                set_tf();
                return;
            }
        }
        preempt();
    }
}
fn preempt() {
    race();
    freeze_check_or_decide();
}
fn freeze_check_or_decide() {
    let s = s();
    let a = &s.actors[s.cur];
    if a.freeze_at != u64::MAX && a.steps >= a.freeze_at {
        freeze_check();
    } else {
        decide(Why::Preempt);
    }
}
#[inline(always)]
unsafe fn set_tf() {
    asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}

extern "C" fn on_trap(_sig: c_int, _i: *mut siginfo_t, u: *mut c_void) {
    unsafe {
        let uc = &mut *(u as *mut ucontext_t);
        let s = s();
        if s.watch_pending {
            s.watch_pending = false;
            if s.watch_left == 0 {
                s.watch_on = false;
            } else {
                s.watch_left -= 1;
                guard_data(PROT_NONE);
            }
            if s.insn_left == 0 {
                uc.uc_mcontext.gregs[REG_EFL as usize] &= !0x100;
                if s.watch_here {
                    watch_point();
                }
                return;
            }
        }
        if s.insn_left > 0 {
            // only instructions of the library count; the simulator's own are stepped over
            let ip = uc.uc_mcontext.gregs[REG_RIP as usize] as usize;
            if ip < s.text.0 || ip >= s.text.1 {
                return;
            }
            rep().insn_steps += 1;
            s.insn_left -= 1;
            if s.insn_left > 0 {
                return;
            }
        } else {
            uc.uc_mcontext.gregs[REG_EFL as usize] &= !0x100;
            return;
        }
        uc.uc_mcontext.gregs[REG_EFL as usize] &= !0x100;
        if s.insn_crash {
            account();
            rep().crashed += 1;
            die(EXIT_CRASH);
        }
        rep().insn_preempts += 1;
        account();
        preempt();
    }
}
/// Code of the C library, whose memcpy the library uses.
fn libc_text() -> (usize, usize) {
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    for l in m.lines() {
        if l.contains("libc.so") && l.contains(" r-xp ") {
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            let x = |v: &str| usize::from_str_radix(v, 16).unwrap_or(0);
            return (x(a), x(b));
        }
    }
    (0, 0)
}
unsafe fn guard_data(prot: c_int) {
    for (a, n) in &s().watch {
        mprotect(*a as *mut c_void, *n, prot);
    }
}
/// Right after an access to static memory of the library.
fn watch_point() {
    let s = s();
    rep().watch_hits += 1;
    let v = draw();
    let a = &mut s.actors[s.cur];
    if a.freeze_at != u64::MAX && v % 4 == 1 {
        account();
        a.freeze_at = a.steps;
        freeze_check();
    } else if v % 2 == 1 {
        account();
        preempt();
    }
}
extern "C" fn on_fault(sig: c_int, i: *mut siginfo_t, u: *mut c_void) {
    unsafe {
        let r = rep();
        let at = (*i).si_addr() as usize;
        if sig == SIGSEGV && s().watch_on && !s().watch_pending && s().watch.iter().any(|(a, n)| at >= *a && at < a + n) {
            let uc = &mut *(u as *mut ucontext_t);
            let ip = uc.uc_mcontext.gregs[REG_RIP as usize] as usize;
            s().watch_pending = true;
            // not when it is the simulator, or the unwinder, that looks
            s().watch_here = [s().text, s().libc].iter().any(|t| ip >= t.0 && ip < t.1);
            guard_data(PROT_READ | PROT_WRITE);
            uc.uc_mcontext.gregs[REG_EFL as usize] |= 0x100;
            return;
        }
        if sig == SIGSEGV && s().traps.iter().any(|(a, n)| at >= *a && at < a + n) {
            for (a, n) in std::mem::take(&mut s().traps) {
                mprotect(a as *mut c_void, n, PROT_READ | PROT_WRITE);
            }
            s().insn_crash = true;
            s().insn_left = 1;
            (*(u as *mut ucontext_t)).uc_mcontext.gregs[REG_EFL as usize] |= 0x100;
            return;
        }
        r.signo = sig;
        r.signal_actor = s().cur as i32;
        r.signal_call = s().actors[s().cur].call;
        r.signal_addr = (*i).si_addr() as u64;
        die(EXIT_SIGNAL);
    }
}

// ------------------------------------------------------------------ heap seam
extern "C" fn sim_alloc(size: usize, align: usize) -> *mut u8 {
    unsafe {
        let s = s();
        let a = &s.actors[s.cur];
        if a.call >= 0 {
            let r = rep();
            r.allocs += 1;
            r.call[a.call as usize].allocs += 1;
            if let Some(k) = s.alloc_fail {
                if r.allocs > k {
                    r.alloc_fails += 1;
                    return std::ptr::null_mut();
                }
            }
            let k = a.call as usize;
            s.held[k] += size as i64;
            r.call[k].peak = r.call[k].peak.max(s.held[k].max(0) as u64);
        }
        let al = align.max(1);
        let mut p = (s.heap_cur + al - 1) / al * al;
        if s.heap_seed & 1 == 1 && p % (al * 2) == 0 {
            p += al; // no more alignment than asked for
        }
        if p + size > HEAP + HEAP_SIZE {
            die(EXIT_HARNESS);
        }
        s.heap_cur = p + size + ((s.heap_seed >> 8) % 64) as usize;
        let fill = (s.heap_seed >> 16) as u8;
        if fill != 0 {
            std::ptr::write_bytes(p as *mut u8, fill, size);
        }
        p as *mut u8
    }
}
extern "C" fn sim_free(p: *mut u8, size: usize, _align: usize) {
    let a = p as usize;
    if a >= HEAP && a < HEAP + HEAP_SIZE {
        unsafe { std::ptr::write_bytes(p, 0xdd, size) };
        let s = s();
        let k = s.actors[s.cur].call;
        if k >= 0 {
            s.held[k as usize] -= size as i64;
        }
    }
}
pub static HOOKS: AllocHooks = AllocHooks { alloc: sim_alloc, free: sim_free };

#[inline(never)]
unsafe fn paint(fill: u32) {
    let mut a = std::mem::MaybeUninit::<[u8; 24576]>::uninit();
    let p = a.as_mut_ptr() as *mut u8;
    match fill {
        0 => std::ptr::write_bytes(p, 0, 24576),
        1 => std::ptr::write_bytes(p, 0xff, 24576),
        _ => {
            let mut r = Rng::new(fill as u64);
            let q = p as *mut u64;
            for i in 0..24576 / 8 {
                std::ptr::write_unaligned(q.add(i), r.next());
            }
        }
    }
    asm!("/* {0} */", in(reg) p, options(nostack));
}

fn bytes(c: &RawCall, k: usize) -> usize {
    c.planes[k].len * crate::ops::OPS[c.op as usize].planes[k].elem.size()
}
pub type Nested = unsafe extern "C" fn(*const *mut RawCall, *mut i32, usize);
extern "C" fn client_main(arg: *mut c_void) -> *mut c_void {
    let me = arg as usize;
    unsafe {
        let list = s().clients[me].clone();
        if let Some(nested) = s().nested {
            client_nested(&list, nested);
            return std::ptr::null_mut();
        }
        for ci in list {
            let fill = s().stack_fill;
            paint(if fill < 2 { fill } else { fill.wrapping_add(ci as u32) | 2 });
            let s = s();
            account_keep();
            let a = s.cur;
            s.actors[a].call = ci as i32;
            let r = &mut rep().call[ci];
            r.state = 1;
            r.actor = a as u32;
            rep().seq += 1;
            r.invoked = rep().seq;
            let s0 = s.actors[a].steps;
            s.held[ci] = 0;
            let c = &mut s.calls[ci] as *mut RawCall;
            let pool = s.pool as usize;
            let mut at = [std::ptr::null_mut(); 8];
            if pool > 0 {
                for k in 0..(*c).nplanes as usize {
                    let q = (POOL + (me % 16 * 8 + k) * SLOT + (pool - 1) * 2) as *mut u8;
                    at[k] = (*c).planes[k].ptr as *mut u8;
                    std::ptr::copy_nonoverlapping(at[k], q, bytes(&*c, k));
                    (*c).planes[k].ptr = q as _;
                }
            }
            let st = (s.node_call.unwrap())(c);
            account_keep();
            if pool > 0 {
                for k in 0..(*c).nplanes as usize {
                    std::ptr::copy_nonoverlapping((*c).planes[k].ptr as *const u8, at[k], bytes(&*c, k));
                    (*c).planes[k].ptr = at[k] as _;
                }
            }
            let s = crate::sched::s();
            let r = &mut rep().call[ci];
            if r.times > 0 && (r.status != st || r.err != (*c).err) {
                r.flips += 1;
            }
            r.kept = r.kept.max(s.held[ci].max(0) as u64);
            r.times += 1;
            r.status = st;
            r.err = (*c).err;
            r.steps = s.actors[a].steps - s0;
            r.state = 2;
            rep().seq += 1;
            r.returned = rep().seq;
            s.actors[a].call = -1;
        }
    }
    std::ptr::null_mut()
}
/// The caller has its calls made by tasks of the library's thread pool.
unsafe fn client_nested(list: &[usize], nested: Nested) {
    account_keep();
    let s = crate::sched::s();
    let a = s.cur;
    s.actors[a].call = list[0] as i32;
    let mut calls: Vec<*mut RawCall> = vec![];
    for &ci in list {
        let r = &mut rep().call[ci];
        r.state = 1;
        r.actor = a as u32;
        rep().seq += 1;
        r.invoked = rep().seq;
        s.held[ci] = 0;
        calls.push(&mut s.calls[ci] as *mut RawCall);
    }
    let mut status = vec![0i32; list.len()];
    nested(calls.as_ptr(), status.as_mut_ptr(), calls.len());
    account_keep();
    let s = crate::sched::s();
    for (k, &ci) in list.iter().enumerate() {
        let r = &mut rep().call[ci];
        r.times += 1;
        r.status = status[k];
        r.err = s.calls[ci].err;
        r.state = 2;
        rep().seq += 1;
        r.returned = rep().seq;
    }
    s.actors[a].call = -1;
}
/// Accounts for the steps so far without ending the slice.
fn account_keep() {
    let s = s();
    unsafe {
        let left = *s.budget + 1;
        let used = (s.grant - left).max(0);
        s.steps += used as u64;
        s.actors[s.cur].steps += used as u64;
        rep().steps = s.steps;
        s.grant = left;
    }
}

extern "C" fn trampoline(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let me = arg as usize;
        let t = &*(&s().actors[me].turn as *const AtomicU32);
        fwait(t);
        let f = s().actors[me].start.unwrap();
        let a = s().actors[me].arg;
        let r = f(a);
        let s = s();
        s.actors[me].st = St::Done;
        for i in 1..s.n {
            if s.actors[i].st == St::Join && s.actors[i].join == me {
                s.actors[i].st = St::Ready;
            }
        }
        // hand the baton on and never take it back
        finish(me);
        r
    }
}
unsafe fn finish(_me: usize) {
    // like decide(), but the thread stays parked for good: the process ends when the driver says so
    decide(Why::Block);
    loop {
        raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
    }
}

type PCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
static mut REAL_CREATE: Option<PCreate> = None;
static mut REAL_CLOCK: Option<unsafe extern "C" fn(clockid_t, *mut timespec) -> c_int> = None;

unsafe fn new_actor(f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void, client: bool, attr: *const pthread_attr_t, out: *mut pthread_t) -> c_int {
    let s = s();
    if s.n >= MAXA {
        return EAGAIN;
    }
    let i = s.n;
    s.n += 1;
    let a = &mut s.actors[i];
    *a = Actor { start: Some(f), arg, client, st: St::Ready, ..blank() };
    for (c, at, dur) in &s.freezes {
        if 1 + c == i {
            a.freeze_at = (*at).max(1);
            a.thaw_at = *dur;
        }
    }
    let mut t: pthread_t = 0;
    let rc = REAL_CREATE.unwrap()(&mut t, attr, trampoline, i as *mut c_void);
    if rc != 0 {
        s.n -= 1;
        return rc;
    }
    a.thread = t;
    if !out.is_null() {
        *out = t;
    }
    0
}
fn blank() -> Actor {
    Actor {
        st: St::Free,
        turn: AtomicU32::new(0),
        addr: 0,
        deadline: u64::MAX,
        timed_out: false,
        join: 0,
        thread: 0,
        client: false,
        steps: 0,
        freeze_at: u64::MAX,
        thaw_at: u64::MAX,
        call: -1,
        start: None,
        arg: std::ptr::null_mut(),
    }
}

// ------------------------------------------------------------------ interposed libc entry points
#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut pthread_t, attr: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    if REAL_CREATE.is_none() {
        let p = dlsym(RTLD_NEXT, c"pthread_create".as_ptr());
        REAL_CREATE = Some(std::mem::transmute::<*mut c_void, PCreate>(p));
    }
    if !ON {
        return REAL_CREATE.unwrap()(out, attr, f, arg);
    }
    rep().threads += 1;
    let rc = new_actor(f, arg, false, attr, out);
    if rc == 0 {
        decide(Why::Preempt);
    }
    rc
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    if ON {
        let s = s();
        for i in 1..s.n {
            if s.actors[i].thread == t {
                if s.actors[i].st != St::Done {
                    let c = s.cur;
                    s.actors[c].st = St::Join;
                    s.actors[c].join = i;
                    note_block();
                    decide(Why::Block);
                }
                if !out.is_null() {
                    *out = std::ptr::null_mut();
                }
                return 0;
            }
        }
    }
    let p = dlsym(RTLD_NEXT, c"pthread_join".as_ptr());
    let f: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(p);
    f(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ON {
        rep().yields += 1;
        decide(Why::Yield);
    }
    0
}
fn note_block() {
    let r = rep();
    r.blocks += 1;
    let c = s().actors[s().cur].call;
    if c >= 0 {
        r.call[c as usize].blocks += 1;
    }
}
fn sim_now() -> u64 {
    let s = s();
    // one step = 10 ns of simulated time; skew and jumps are drawn from the clock seed
    let mut t = s.steps * 10;
    if s.clock_seed != 0 {
        s.clock_n += 1;
        let r = mix(s.clock_seed, s.clock_n);
        t += r % 1_000_000_007 * (1 + (r >> 40) % 3600);
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if ON {
        let r = rep();
        r.clock_reads += 1;
        let c = s().actors[s().cur].call;
        if c >= 0 {
            r.call[c as usize].reads += 1;
        }
        let t = sim_now() + 1_700_000_000_000_000_000 * (id == CLOCK_REALTIME) as u64;
        (*ts).tv_sec = (t / 1_000_000_000) as time_t;
        (*ts).tv_nsec = (t % 1_000_000_000) as c_long;
        return 0;
    }
    if REAL_CLOCK.is_none() {
        let p = dlsym(RTLD_NEXT, c"clock_gettime".as_ptr());
        REAL_CLOCK = Some(std::mem::transmute(p));
    }
    REAL_CLOCK.unwrap()(id, ts)
}
unsafe fn sleep_for(ts: *const timespec) {
    let s = s();
    let ns = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    account();
    let c = s.cur;
    s.actors[c].st = St::Blocked;
    s.actors[c].addr = 0;
    s.actors[c].deadline = s.steps + ns / 10;
    note_block();
    decide(Why::Block);
    s.actors[c].deadline = u64::MAX;
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, _rem: *mut timespec) -> c_int {
    if ON {
        sleep_for(ts);
        return 0;
    }
    raw6(SYS_nanosleep, ts as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_c: clockid_t, _f: c_int, ts: *const timespec, _rem: *mut timespec) -> c_int {
    if ON {
        sleep_for(ts);
        return 0;
    }
    raw6(SYS_nanosleep, ts as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if ON {
        let r = rep();
        r.random_reads += 1;
        let c = s().actors[s().cur].call;
        if c >= 0 {
            r.call[c as usize].reads += 1;
        }
        let mut g = Rng::new(mix(s().clock_seed, 77 + r.random_reads));
        for i in 0..n {
            *(buf as *mut u8).add(i) = g.next() as u8;
        }
        return n as ssize_t;
    }
    raw6(SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if ON && n == SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    if ON && n == SYS_futex {
        let s = s();
        match b & 127 {
            // WAIT, WAIT_BITSET
            0 | 9 => {
                if std::ptr::read_volatile(a as *const u32) != c as u32 {
                    *__errno_location() = EAGAIN;
                    return -1;
                }
                account();
                let me = s.cur;
                s.actors[me].st = St::Blocked;
                s.actors[me].addr = a;
                s.actors[me].timed_out = false;
                s.actors[me].deadline = if d == 0 {
                    u64::MAX
                } else {
                    let t = d as *const timespec;
                    let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
                    if b & 127 == 9 { (ns / 10).max(s.steps) } else { s.steps + ns / 10 }
                };
                note_block();
                decide(Why::Block);
                let s = crate::sched::s();
                s.actors[me].deadline = u64::MAX;
                if s.actors[me].timed_out {
                    *__errno_location() = ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            // WAKE, WAKE_BITSET
            1 | 10 => {
                let mut woken = 0;
                while woken < c as i32 {
                    let w: Vec<usize> = (1..s.n).filter(|i| s.actors[*i].st == St::Blocked && s.actors[*i].addr == a).collect();
                    if w.is_empty() {
                        break;
                    }
                    let k = if w.len() == 1 { 0 } else { draw() as usize % w.len() };
                    s.actors[w[k]].st = St::Ready;
                    woken += 1;
                }
                rep().wakes += woken as u64;
                if woken > 0 {
                    decide(Why::Preempt);
                }
                return woken as c_long;
            }
            _ => {}
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r as c_long
}

// ------------------------------------------------------------------ running a simulated process
pub unsafe fn init() {
    let p = dlsym(RTLD_NEXT, c"pthread_create".as_ptr());
    REAL_CREATE = Some(std::mem::transmute::<*mut c_void, PCreate>(p));
    let p = dlsym(RTLD_NEXT, c"clock_gettime".as_ptr());
    REAL_CLOCK = Some(std::mem::transmute(p));
    let sim = Sim {
        cur: 0,
        n: 1,
        actors: std::array::from_fn(|_| blank()),
        budget: std::ptr::null_mut(),
        grant: 0,
        steps: 0,
        rep: shared(std::mem::size_of::<Report>()) as *mut Report,
        rng: Rng::new(0),
        list: vec![],
        seeded: false,
        used: 0,
        quantum: 0,
        insn: 0,
        watch: vec![],
        libc: libc_text(),
        watch_on: false,
        watch_pending: false,
        watch_here: false,
        watch_left: 0,
        crash: None,
        traps: vec![],
        insn_left: 0,
        insn_crash: false,
        alloc_fail: None,
        heap_seed: 0,
        heap_cur: HEAP,
        clock_seed: 0,
        clock_n: 0,
        racers: vec![],
        max_steps: 0,
        pool: 0,
        nested: None,
        stack_fill: 0,
        node_call: None,
        calls: vec![],
        clients: vec![],
        text: (0, 0),
        same: 0,
        freezes: vec![],
        held: [0; MAXCALL],
    };
    SIM = Box::into_raw(Box::new(sim));
}
/// Gives this process its own report page.
pub unsafe fn own_report() {
    s().rep = shared(std::mem::size_of::<Report>()) as *mut Report;
}
pub fn report() -> &'static Report {
    rep()
}

unsafe fn child(node: &Node, p: &Plan) -> ! {
    let s = s();
    let mut sa: sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_trap as *const () as usize;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, std::ptr::null_mut());
    sa.sa_sigaction = on_fault as *const () as usize;
    for g in [SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT] {
        sigaction(g, &sa, std::ptr::null_mut());
    }
    for (a, l) in p.protect.iter().chain(&p.traps) {
        mprotect(*a as *mut c_void, *l, PROT_READ);
    }
    node.set_cpu(p.cpu);
    let w = format!("RAYON_NUM_THREADS={}\0", p.workers);
    putenv(w.leak().as_mut_ptr() as *mut c_char);
    match &p.tape {
        Tape::Seed(x) => {
            s.rng = Rng::new(*x);
            s.seeded = true;
        }
        Tape::List(v) => {
            s.list = v.clone();
            s.seeded = false;
        }
    }
    s.quantum = p.quantum;
    s.insn = p.insn;
    if p.watch {
        s.watch = node.data.clone();
        s.watch_left = 2000;
    }
    s.crash = p.crash;
    s.traps = p.traps.clone();
    s.alloc_fail = p.alloc_fail;
    s.heap_seed = p.heap_seed;
    s.clock_seed = p.clock_seed;
    s.stack_fill = p.stack_fill;
    s.pool = p.pool;
    s.nested = if p.nested { node.nested } else { None };
    s.max_steps = p.max_steps;
    s.racers = p.racers.clone();
    s.calls = p.calls.clone();
    s.clients = p.clients.clone();
    s.freezes = p.freezes.clone();
    s.budget = node.budget;
    s.text = node.text;
    s.node_call = Some(node.call);
    s.actors[0].st = St::Ready;
    let mut attr: pthread_attr_t = std::mem::zeroed();
    pthread_attr_init(&mut attr);
    pthread_attr_setstacksize(&mut attr, 1 << 20);
    for i in 0..p.clients.len() {
        if new_actor(client_main, i as *mut c_void, true, &attr, std::ptr::null_mut()) != 0 {
            die(EXIT_HARNESS);
        }
    }
    (node.set_alloc)(&HOOKS);
    ON = true;
    if p.watch {
        s.watch_on = true;
        guard_data(PROT_NONE);
    }
    decide(Why::Block);
    ON = false;
    die(EXIT_OK);
}

/// The reference execution: one call on the only thread of a fresh process, nothing injected.
unsafe fn solo(node: &Node, c: &RawCall, cpu: u64) -> ! {
    let s = s();
    let mut sa: sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_fault as *const () as usize;
    sa.sa_flags = SA_SIGINFO;
    for g in [SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT] {
        sigaction(g, &sa, std::ptr::null_mut());
    }
    node.set_cpu(cpu);
    s.budget = node.budget;
    s.actors[0].call = 0;
    (node.set_alloc)(&HOOKS);
    let mut c = *c;
    let big = SOLO_LIMIT;
    *s.budget = big;
    let st = (node.call)(&mut c);
    let r = &mut rep().call[0];
    r.steps = (big - *s.budget) as u64;
    r.status = st;
    r.err = c.err;
    r.state = 2;
    die(EXIT_OK);
}
const SOLO_LIMIT: i64 = 400_000_000;
pub unsafe fn run_solo(node: &Node, c: &RawCall, cpu: u64) -> i32 {
    clear(1);
    let pid = fork();
    if pid == 0 {
        solo(node, c, cpu);
    }
    reap(pid)
}

/// Runs one simulated process to its end; returns its exit code (or 128+signal when killed by one).
pub unsafe fn run(node: &Node, p: &Plan) -> i32 {
    clear(p.calls.len());
    let pid = fork();
    if pid == 0 {
        child(node, p);
    }
    reap(pid)
}
unsafe fn clear(calls: usize) {
    let n = std::mem::offset_of!(Report, call) + calls.min(MAXCALL) * std::mem::size_of::<CallRep>();
    std::ptr::write_bytes(s().rep as *mut u8, 0, n);
}
unsafe fn reap(pid: pid_t) -> i32 {
    if pid < 0 {
        return EXIT_HARNESS;
    }
    let mut st = 0;
    loop {
        let r = waitpid(pid, &mut st, 0);
        if r == pid {
            break;
        }
    }
    if WIFEXITED(st) {
        WEXITSTATUS(st)
    } else {
        128 + WTERMSIG(st)
    }
}
