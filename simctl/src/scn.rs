//! A simulated execution as data: everything that decides it is in here, so that a scenario is a replay file.
use crate::prng::*;
use crate::world::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Scn {
    pub prop: String,
    /// run the build with the `rayon` feature
    pub par: bool,
    pub cpu: String,
    /// the machines that share the work (C07); `cpu` is then the one they are compared with
    pub fleet: Vec<String>,
    pub calls: Vec<Call>,
    /// per client: indices of the calls it makes
    pub clients: Vec<Vec<usize>>,
    pub quantum: u32,
    pub insn: u32,
    /// switches at accesses to the library's static data
    pub watch: u32,
    /// (per mille of the steps of an undisturbed run, machine instructions after that edge)
    /// (permille of the steps, instructions after it; AT_FOREIGN_WRITE: wherever something that is no destination is written)
    pub crash: Option<(u32, u32)>,
    /// a second crash, of the process that retries
    pub crash2: Option<(u32, u32)>,
    /// (actor, per mille of the longest call, for how many steps; u64::MAX = for ever)
    pub freezes: Vec<(usize, u32, u64)>,
    pub alloc_fail: Option<u64>,
    pub heap_seed: u64,
    pub stack_fill: u32,
    /// each caller converts within recycled buffers whose addresses never change (1 + half their offset)
    pub pool: u32,
    /// the calls of a caller are made by tasks of the rayon pool
    pub nested: bool,
    pub clock_seed: u64,
    pub workers: u32,
    pub racer: bool,
    /// band edges (rows) of call 0, for band-wise conversion
    pub bands: Vec<u32>,
    /// faults on the geometry of calls: (call, kind)
    pub faults: Vec<(usize, String)>,
    pub tape: Tape,
}
impl Scn {
    pub fn new(prop: &str) -> Scn {
        Scn {
            prop: prop.into(),
            par: false,
            cpu: "x86-64".into(),
            fleet: vec![],
            calls: vec![],
            clients: vec![],
            quantum: 0,
            insn: 0,
            watch: 0,
            crash: None,
            crash2: None,
            freezes: vec![],
            alloc_fail: None,
            heap_seed: 0,
            stack_fill: 0,
            pool: 0,
            nested: false,
            clock_seed: 0,
            workers: 1,
            racer: false,
            bands: vec![],
            faults: vec![],
            tape: Tape::List(vec![]),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let mut p = |k: &str, v: String| {
            s.push_str(k);
            s.push(' ');
            s.push_str(&v);
            s.push('\n');
        };
        let js = |v: &Vec<u32>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        p("property", self.prop.clone());
        p("build", if !self.par { "sequential" } else if self.prop == "C12" { "checked" } else { "rayon" }.into());
        p("cpu", self.cpu.clone());
        if !self.fleet.is_empty() {
            p("fleet", self.fleet.join(","));
        }
        for c in &self.calls {
            let mut l = format!(
                "{} w={},{} h={},{} range={} matrix={} mode={} flag={} depth={} order={} gamma={} geo={} custom={} content={} seed={}",
                c.spec().name, c.w[0], c.w[1], c.h[0], c.h[1], c.range, c.matrix, c.mode, c.flag, c.depth, c.order, c.gamma, c.geo, c.custom, c.content, c.seed
            );
            if c.own != 0 {
                l += &format!(" own={}", c.own);
            }
            for a in &c.pl {
                l += &format!(" plane={},{},{},{},{},{}", a.stride, a.len, a.place, a.off, a.stale, a.share.map_or("-".into(), |x| format!("{}/{}", x.0, x.1)));
            }
            p("call", l);
        }
        for c in &self.clients {
            p("client", js(&c.iter().map(|x| *x as u32).collect()));
        }
        p("quantum", self.quantum.to_string());
        p("insn", self.insn.to_string());
        p("watch", self.watch.to_string());
        for (k, c) in [("crash", self.crash), ("crash2", self.crash2)] {
            if let Some((a, b)) = c {
                p(k, format!("{a},{b}"));
            }
        }
        for (a, b, c) in &self.freezes {
            p("freeze", format!("{a},{b},{c}"));
        }
        if let Some(a) = self.alloc_fail {
            p("alloc_fail", a.to_string());
        }
        p("heap", self.heap_seed.to_string());
        p("stack", self.stack_fill.to_string());
        if self.nested {
            p("nested", "1".into());
        }
        if self.pool > 0 {
            p("pool", self.pool.to_string());
        }
        p("clock", self.clock_seed.to_string());
        p("workers", self.workers.to_string());
        p("racer", (self.racer as u32).to_string());
        if !self.bands.is_empty() {
            p("bands", js(&self.bands));
        }
        for (c, k) in &self.faults {
            p("fault", format!("{c},{k}"));
        }
        match &self.tape {
            Tape::Seed(x) => p("tape_seed", x.to_string()),
            Tape::List(v) => p("tape", js(v)),
        }
        s
    }
    pub fn parse(t: &str) -> Option<Scn> {
        let mut s = Scn::new("");
        let nums = |v: &str| -> Option<Vec<u64>> { v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect() };
        for l in t.lines() {
            if l.starts_with('#') || l.trim().is_empty() {
                continue;
            }
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => s.prop = v.into(),
                "build" => s.par = v != "sequential",
                "cpu" => s.cpu = v.into(),
                "fleet" => s.fleet = v.split(',').map(|x| x.to_string()).collect(),
                "call" => {
                    let mut it = v.split(' ');
                    let op = op_index(it.next()?)?;
                    let mut c = Call { op, w: [1; 2], h: [1; 2], range: 0, matrix: 0, mode: 0, flag: 0, depth: 10, order: 0, gamma: 0, geo: 0, custom: 0, own: 0, content: 0, seed: 0, pl: vec![] };
                    for f in it {
                        let (k, v) = f.split_once('=')?;
                        if k == "plane" {
                            let x: Vec<&str> = v.split(',').collect();
                            let share = if x[5] == "-" {
                                None
                            } else {
                                let (a, b) = x[5].split_once('/')?;
                                Some((a.parse().ok()?, b.parse().ok()?))
                            };
                            c.pl.push(PArg { stride: x[0].parse().ok()?, len: x[1].parse().ok()?, place: x[2].parse().ok()?, off: x[3].parse().ok()?, stale: x[4].parse().ok()?, share });
                            continue;
                        }
                        let n = nums(v)?;
                        let x = *n.first()? as u32;
                        match k {
                            "w" => c.w = [x, n[1] as u32],
                            "h" => c.h = [x, n[1] as u32],
                            "range" => c.range = x,
                            "matrix" => c.matrix = x,
                            "mode" => c.mode = x,
                            "flag" => c.flag = x,
                            "depth" => c.depth = x,
                            "order" => c.order = x,
                            "gamma" => c.gamma = x,
                            "geo" => c.geo = x,
                            "custom" => c.custom = x,
                            "own" => c.own = x,
                            "content" => c.content = x,
                            "seed" => c.seed = n[0],
                            _ => return None,
                        }
                    }
                    if c.pl.len() != c.spec().planes.len() {
                        return None;
                    }
                    s.calls.push(c);
                }
                "client" => s.clients.push(nums(v)?.iter().map(|x| *x as usize).collect()),
                "quantum" => s.quantum = v.parse().ok()?,
                "insn" => s.insn = v.parse().ok()?,
                "watch" => s.watch = v.parse().ok()?,
                "crash" => s.crash = nums(v).map(|n| (n[0] as u32, n[1] as u32)),
                "crash2" => s.crash2 = nums(v).map(|n| (n[0] as u32, n[1] as u32)),
                "freeze" => {
                    let n = nums(v)?;
                    s.freezes.push((n[0] as usize, n[1] as u32, n[2]));
                }
                "alloc_fail" => s.alloc_fail = v.parse().ok(),
                "heap" => s.heap_seed = v.parse().ok()?,
                "nested" => s.nested = v == "1",
                "pool" => s.pool = v.parse().ok()?,
                "stack" => s.stack_fill = v.parse().ok()?,
                "clock" => s.clock_seed = v.parse().ok()?,
                "workers" => s.workers = v.parse().ok()?,
                "racer" => s.racer = v == "1",
                "bands" => s.bands = nums(v)?.iter().map(|x| *x as u32).collect(),
                "fault" => {
                    let (a, b) = v.split_once(',')?;
                    s.faults.push((a.parse().ok()?, b.into()));
                }
                "tape_seed" => s.tape = Tape::Seed(v.parse().ok()?),
                "tape" => s.tape = Tape::List(nums(v)?.iter().map(|x| *x as u32).collect()),
                _ => return None,
            }
        }
        Some(s)
    }
}

/// Second number of a crash: the process dies right after its first write to what is not a destination.
pub const AT_FOREIGN_WRITE: u32 = 9999;
