//! Deterministic simulation of the yuv library: seeded schedules and faults, judged against the undisturbed library.
//!   simctl check <property> --seq libnode.so [--par libnode.so] --secs N [--max-runs N] --out DIR --known FILE
//!   simctl replay <file> --seq … [--par …]
//!   simctl digest <property> …            (hash of everything observed in the first N runs: the determinism test)
#![allow(static_mut_refs)]
mod arena;
mod exec;
mod fleet;
mod model;
mod gen;
mod known;
mod node;
mod ops;
mod prng;
mod props;
mod sched;
mod scn;
mod shrink;
mod spec;
mod stats;
mod world;
use exec::*;
use scn::*;
use stats::*;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::*;
use std::time::Instant;

struct Args {
    v: Vec<String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.v.iter().position(|x| x == k).and_then(|i| self.v.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

unsafe fn quiet_stderr() {
    // aborting simulated processes talk; nobody listens
    if std::env::var_os("SIM_LOUD").is_some() {
        return;
    }
    let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    libc::dup2(fd, 2);
}

fn main() {
    unsafe {
        // no address-space randomisation: every simulated address is the same in every run
        if libc::personality(0xffffffff) & 0x0040000 == 0 && std::env::var_os("SIMCTL_CHILD").is_none() {
            libc::personality(0x0040000);
            std::env::set_var("SIMCTL_CHILD", "1");
            let a: Vec<std::ffi::CString> = std::env::args().map(|x| std::ffi::CString::new(x).unwrap()).collect();
            let mut p: Vec<*const libc::c_char> = a.iter().map(|x| x.as_ptr()).collect();
            p.push(std::ptr::null());
            libc::execv(c"/proc/self/exe".as_ptr(), p.as_ptr());
        }
        let args = Args { v: std::env::args().collect() };
        let cmd = args.v.get(1).cloned().unwrap_or_default();
        let what = args.v.get(2).cloned().unwrap_or_default();
        sched::init();
        world::init_pattern();
        let stats = Stats::new();
        let cov = arena::shared(1 << 22);
        let seq = node::Node::load(args.get("--seq").expect("--seq"), sched::hook, cov);
        let par = args.get("--par").map(|p| node::Node::load(p, sched::hook, cov.add(1 << 21)));
        let bare = args.get("--bare").map(|p| node::Node::load(p, sched::hook, cov.add(3 << 20)));
        assert!(seq.nguard < 1 << 21 && par.as_ref().is_none_or(|p| p.nguard < 1 << 20 || bare.is_none()));
        let models = seq.models();
        if models.is_empty() {
            eprintln!("no CPU model can be played on this host");
            std::process::exit(3);
        }
        if models.iter().any(|m| par.iter().chain(&bare).any(|p| !p.models().iter().any(|x| x.name == m.name))) {
            eprintln!("the two builds disagree about the CPU");
            std::process::exit(3);
        }
        let known = known::load(args.get("--known").unwrap_or(""));
        let mut ctx = Ctx { seq, par, bare, models, stats, known, tape_used: 0, sig: 0, verbose: false };
        let code = match cmd.as_str() {
            "check" => check(&mut ctx, &args, &what, cov),
            "replay" => replay(&mut ctx, &what),
            "digest" => digest(&mut ctx, &args, &what),
            "cpuscan" => {
                quiet_stderr();
                fleet::scan(&mut ctx, args.num("--runs", 20), args.num("--part", 0), args.num("--parts", 1), args.get("--only").unwrap_or(""));
                0
            }
            "modelscan" => {
                model::scan(&mut ctx, args.num("--runs", 20), args.num("--part", 0), args.num("--parts", 1), args.get("--only").unwrap_or(""));
                0
            }
            // development aid: what fails, by function
            "propscan" => {
                arena::map();
                quiet_stderr();
                let mut m = std::collections::BTreeMap::new();
                let prop = what.clone();
                let (part, parts) = (args.num("--part", 0), args.num("--parts", 1));
                for i in 0..args.num("--runs", 1000) {
                    if i % parts != part {
                        continue;
                    }
                    let s = props::generate(&prop, args.num("--seed", 1), i, &ctx.models);
                    if let Out::Bad(k, t) = ctx.exec(&s) {
                        let e = m.entry((s.calls[0].spec().name, k)).or_insert((0, t, i, s.calls[0].content));
                        e.0 += 1;
                    }
                }
                for ((f, k), (n, t, i, c)) in m {
                    println!("{f}\t{k}\t{n}\t{i}\tcontent{c}\t{t}");
                }
                0
            }
            _ => 2,
        };
        std::process::exit(code);
    }
}

unsafe fn replay(ctx: &mut Ctx, file: &str) -> i32 {
    arena::map();
    quiet_stderr();
    let Some(s) = std::fs::read_to_string(file).ok().and_then(|t| Scn::parse(&t)) else {
        println!("cannot read {file}");
        return 2;
    };
    ctx.verbose = true;
    match ctx.exec(&s) {
        Out::Bad(k, t) => {
            println!("violation [{k}]: {t}");
            println!("VIOLATION property={} replay={file}", s.prop);
            1
        }
        Out::Inconclusive(t) => {
            println!("inconclusive: {t}");
            2
        }
        Out::Ok => {
            println!("the property held");
            0
        }
    }
}

unsafe fn digest(ctx: &mut Ctx, args: &Args, prop: &str) -> i32 {
    arena::map();
    quiet_stderr();
    let mut h = 0u64;
    for i in 0..args.num("--max-runs", 100) {
        let s = props::generate(prop, args.num("--seed", 1), i, &ctx.models);
        let o = ctx.exec(&s);
        let k = match &o {
            Out::Ok => 1,
            Out::Inconclusive(_) => 2,
            Out::Bad(..) => 3,
        };
        h = prng::mix(h ^ k, ctx.sig);
        if args.get("--each").is_some() {
            println!("{i} {k} {:016x}", ctx.sig);
        }
    }
    println!("{prop} digest {h:016x}");
    0
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

unsafe fn check(ctx: &mut Ctx, args: &Args, prop: &str, cov: *mut u8) -> i32 {
    let t0 = Instant::now();
    let secs = args.num("--secs", 40);
    let max_runs = args.num("--max-runs", u64::MAX);
    let seed = args.num("--seed", 1);
    let out = args.get("--out").unwrap_or(".").to_string();
    if !props::PROPS.contains(&prop) {
        println!("unknown property {prop}");
        return 2;
    }
    let ncpu = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as u64;
    let workers = args.num("--workers", ncpu.min(8));
    let mut mask: libc::cpu_set_t = std::mem::zeroed();
    libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut mask);
    let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &mask)).collect();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let mut m: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpus[w as usize % cpus.len()], &mut m);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &m);
            arena::map();
            sched::own_report();
            quiet_stderr();
            let mut i = w;
            while i < max_runs && !ctx.stats.stop.load(Relaxed) && t0.elapsed().as_secs() < secs {
                let s = props::generate(prop, seed, i, &ctx.models);
                ctx.stats.add("runs", 1);
                match ctx.exec(&s) {
                    Out::Ok => {}
                    Out::Inconclusive(t) => {
                        ctx.stats.add("inconclusive", 1);
                        if ctx.stats.get("inconclusive") < 6 {
                            println!("run {i}: {t}");
                        }
                    }
                    Out::Bad(k, t) => {
                        if std::env::var_os("SIM_ALL").is_some() {
                            println!("BAD {i} [{k}] {} | {t}", s.cpu);
                            i += workers;
                            continue;
                        }
                        if let Some(f) = args.get("--only") {
                            // looking for a scenario that shows a given defect
                            if !f.split('+').all(|x| format!("[{k}] {t}").contains(x)) {
                                i += workers;
                                continue;
                            }
                        }
                        if !ctx.stats.stop.swap(true, AcqRel) {
                            let text = format!("{k}\n{t}\n{i}\n{}", s.text());
                            let st = ctx.stats as *const Stats as *mut Stats;
                            let n = text.len().min(1 << 20);
                            std::ptr::copy_nonoverlapping(text.as_ptr(), (*st).text.as_mut_ptr(), n);
                            ctx.stats.text_len.store(n as u64, Release);
                        }
                        break;
                    }
                }
                i += workers;
            }
            libc::_exit(0);
        }
        pids.push(pid);
    }
    let mut harness = false;
    for p in pids {
        let mut st = 0;
        while libc::waitpid(p, &mut st, 0) != p {}
        if st != 0 {
            println!("a search process ended with {st:#x}");
            harness = true;
        }
    }
    let wall_search = t0.elapsed().as_secs_f64();
    arena::map();
    sched::own_report();
    let st = ctx.stats;
    let mut violations = 0;
    let mut code = 0;
    let n = st.text_len.load(Acquire) as usize;
    let mut found = String::new();
    if n > 0 {
        let text = String::from_utf8_lossy(&st.text[..n]).to_string();
        let mut it = text.splitn(4, '\n');
        let (class, what, run, body) = (it.next().unwrap().to_string(), it.next().unwrap().to_string(), it.next().unwrap().to_string(), it.next().unwrap_or("").to_string());
        violations = 1;
        println!("run {run} (seed {seed}): [{class}] {what}");
        found = what.clone();
        let s = Scn::parse(&body).expect("scenario text");
        // the supervisor talks to the terminal again afterwards
        let keep = libc::dup(2);
        quiet_stderr();
        let m = shrink::minimise(ctx, &s, &class, args.num("--shrink-secs", 60));
        let again = ctx.exec(&m);
        libc::dup2(keep, 2);
        let (m, msg) = match again {
            Out::Bad(k, t) if k == class => (m, t),
            _ => {
                println!("the minimised scenario does not fail; keeping the original");
                (s, what)
            }
        };
        println!("minimised: [{class}] {msg}");
        let path = format!("{out}/{prop}-{:016x}.txt", prng::mix(seed, m.text().bytes().fold(5, |a, b| prng::mix(a, b as u64))));
        let mut body = format!("# property {prop}, seed {seed}, run {run}\n# [{class}] {msg}\n");
        body += &m.text();
        let _ = std::fs::create_dir_all(&out);
        std::fs::write(&path, body).expect("replay file");
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    // recorded findings: is each still there in its pinned scenario?
    let dir = std::path::Path::new(args.get("--known").unwrap_or("")).parent().map(|p| p.to_path_buf()).unwrap_or_default();
    for i in 0..ctx.known.len() {
        if ctx.known[i].prop != prop {
            continue;
        }
        let seen = st.known[i].load(Relaxed);
        let Some(s) = std::fs::read_to_string(dir.join(&ctx.known[i].pin)).ok().and_then(|t| Scn::parse(&t)) else {
            println!("cannot read {}", ctx.known[i].pin);
            return 2;
        };
        ctx.exec(&s);
        if st.known[i].load(Relaxed) > seen {
            println!("KNOWN-FINDING: property={prop} {} (met {seen} times in this run)", ctx.known[i].text);
        }
    }
    // ---- evidence
    let g = |k: &str| st.get(k);
    let runs = g("runs");
    let edges = |o: usize, n: usize| (1..=n).filter(|i| *cov.add(o + i) != 0).count();
    let (es, ns) = (edges(0, ctx.seq.nguard), ctx.seq.nguard);
    if let Some(f) = std::env::var_os("SIM_COV") {
        // one byte per edge of the sequential build, for finding code that no run reaches
        let _ = std::fs::write(f, std::slice::from_raw_parts(cov.add(1), ns));
    }
    let (ep, np) = ctx.par.as_ref().map_or((0, 0), |p| (edges(1 << 21, p.nguard), p.nguard));
    let nops = st.ops.iter().filter(|x| x.load(Relaxed) != 0).count();
    let mut j = String::new();
    let samples: Vec<String> = (0..2).map(|i| json(&props::generate(prop, seed, i * 311, &ctx.models).text())).collect();
    let faults: Vec<String> = [
        "crashes", "retries", "handovers", "stalls", "stalls_ended", "alloc_failures", "neighbour_writes", "stale_buffers", "guarded_sources", "guarded_padding_rows",
        "fault_truncated", "fault_stride", "fault_zero", "fault_mismatch", "fault_descriptor", "fault_huge", "fault_tight", "fault_oversized",
    ]
    .iter()
    .filter(|k| g(k) > 0)
    .map(|k| format!("{}: {}", json(k), g(k)))
    .collect();
    let counts: Vec<String> = [
        "processes", "machines", "switches", "preemptions", "instruction_preemptions", "instructions_stepped", "static_accesses_seen", "futex_blocks", "futex_wakes", "yields",
        "threads_started", "clock_reads", "random_reads", "calls_returned", "calls_rejected", "bands", "alloc_calls", "inconclusive",
    ]
    .iter()
    .map(|k| format!("{}: {}", json(k), g(k)))
    .collect();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let level = "exploration";
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_seconds\": {},\n  \"simulated_steps\": {},\n  \"faults_injected\": {{{}}},\n  \"counts\": {{{}}},\n  \"functions_called\": \"{nops} of {}\",\n  \"control_flow_edges_reached\": {{\"sequential build\": \"{es} of {ns}\", \"{}\": \"{ep} of {np}\"}},\n  \"cpu_models\": [{}],\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"note\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {violations}\n}}\n",
        json(prop),
        json(tier),
        json(level),
        st.distinct(),
        json(props::rule(prop)),
        samples.join(", "),
        (runs as f64 / wall_search * 3600.0) as u64,
        (runs as f64 / wall_search * 3600.0) as u64,
        g("steps") as f64 * 1e-8,
        g("steps"),
        faults.join(", "),
        counts.join(", "),
        ops::N_OPS,
        match prop {
            "C12" => "build with checks",
            "C14" => "build with the default features",
            _ => "rayon build",
        },
        ctx.models.iter().map(|m| json(m.name)).collect::<Vec<_>>().join(", "),
        json("the yuv crate compiled from /repo (every public conversion function), its SIMD back ends under the simulated CPU's feature set, rayon and rayon-core in the rayon build, std, the machine's threads and page protection"),
        json("thread scheduling, futexes, yields, clocks, randomness, the heap and CPU feature detection (all decided by the simulator); the callers and the image buffers (generated)"),
        json(&format!("one run = one seed = one scenario with all its simulated processes; one step = one control-flow edge = 10 ns of simulated time{}", if found.is_empty() { String::new() } else { format!("; found: {found}") })),
        [json("the simulated processes' edges are the preemption points, in a share of runs also single machine instructions; weak memory effects beyond interleavings are not simulated"), json("x86-64 back ends only")].join(", "),
        t0.elapsed().as_secs_f64(),
    );
    if let Some(e) = args.get("--evidence") {
        if let Some(d) = std::path::Path::new(e).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(e, j).expect("evidence");
    }
    println!("{prop}: {runs} runs, {} distinct, {} processes, {:.1} s, {} inconclusive, {nops} functions, edges {es}/{ns} {ep}/{np}", st.distinct(), g("processes"), wall_search, g("inconclusive"));
    if code == 0 && (harness || runs == 0) {
        return 3;
    }
    code
}
