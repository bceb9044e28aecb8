//! Runs plans in forked processes, many at a time; minimises and reports violations; measures.
use crate::kernel::{self, Act, Event, Shm, ACT_NAMES, MAXEV, NACT};
use crate::ops::{self, Op, OpRec, V};
use crate::plan::{self, Plan};
use crate::rng::mix;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Outcome {
    /// None: the property held; Some(class: message)
    pub violation: Option<String>,
    pub events: Vec<Event>,
    pub trace: u64,
    pub digest: u64,
    pub points: u64,
    pub cur_oid: u32,
    /// what key generation arrives at in this build
    pub golden: u64,
}

/// A call's bound on its own steps: several times what the most expensive operation takes.
pub const CAP: u64 = if cfg!(debug_assertions) { 1 << 31 } else { 1 << 28 };

static mut PLAN: Option<Plan> = None;

#[allow(static_mut_refs)]
fn plan() -> &'static Plan {
    unsafe { PLAN.as_ref().unwrap() }
}

fn body(t: usize) {
    for o in &plan().threads[t] {
        ops::exec(o.oid);
    }
}

fn class_of(m: &str) -> &str {
    m.split(':').next().unwrap_or("")
}

/// In the forked child: one simulated run, from a fresh process state to the verdict.
fn child(p: Plan, script: Option<&[Event]>, #[cfg(feature = "full")] golden: Vec<crate::r1cs::Shape>) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::alarm(150);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 2);
        PLAN = Some(p);
    }
    let p = plan();
    let all = p.all();
    #[cfg(feature = "full")]
    {
        let also: Vec<usize> = p.progs.iter().flat_map(crate::r1cs::sets_of).collect();
        ops::setup(&all, &p.pool, p.threads.len(), &also);
        crate::r1cs::setup(&p.progs, p.threads.len(), golden);
        unsafe { crate::r1cs::SHAPES = p.prop == "C06" };
    }
    #[cfg(not(feature = "full"))]
    ops::setup(&all, &p.pool, p.threads.len(), &[]);
    let n_oids = all.iter().map(|o| o.oid as usize + 1).max().unwrap_or(0);
    kernel::run(
        kernel::RunCfg {
            threads: p.threads.len().max(1),
            strict: p.strict,
            cap: CAP,
            strat: Some(p.strat.clone()),
            script,
            irqs: p.irqs.iter().map(|o| o.oid).collect(),
            exec: ops::exec,
            n_oids,
            refuse_from_start: p.refuse_from_start,
            stack: 32 << 20,
        },
        if p.threads.is_empty() { |_| {} } else { body },
    );
    let order: Vec<(usize, u32)> = p
        .threads
        .iter()
        .enumerate()
        .flat_map(|(t, v)| v.iter().map(move |o| (t, o.oid)))
        .chain(p.irqs.iter().filter(|o| ops::world().res[o.oid as usize].st != ops::RStat::NotRun).map(|o| (0, o.oid)))
        .collect();
    // what the run observed, for comparison across repetitions and builds
    let mut d = 0xcbf29ce484222325u64;
    let mut add = |b: u64| d = (d ^ b).wrapping_mul(0x100000001b3).rotate_left(11);
    for (i, r) in ops::world().res.iter().enumerate() {
        add(i as u64 * 16 + r.st as u64);
        for v in &r.vals {
            for c in v.0.chunks(8) {
                add(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    kernel::shm().digest = d;
    let killed = p.killed_ok && kernel::shm().fired[2] > 0;
    if let Err(m) = ops::check_history(&order, &p.pool, killed) {
        kernel::set_msg(&m);
        kernel::shm().status = 2;
        unsafe { libc::_exit(0) }
    }
    kernel::shm().status = 1;
    unsafe { libc::_exit(0) }
}

/// The shapes a key-generating node arrives at: each program alone, in a process of its own.
#[cfg(feature = "full")]
fn goldens(p: &Plan) -> Vec<crate::r1cs::Shape> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    if p.prop != "C06" {
        return vec![];
    }
    let mut out = vec![];
    for (prog, goal) in crate::r1cs::goldens(p) {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                let lim = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                kernel::PINNED = mix(p.seed ^ 0x60 ^ prog as u64) | 1;
                // a thread of its own: hash map seeds are per thread
                std::thread::scope(|sc| {
                    sc.spawn(|| {
                        let also: Vec<usize> = p.progs.iter().flat_map(crate::r1cs::sets_of).collect();
                        ops::setup(&[], &[], 1, &also);
                        crate::r1cs::setup(&p.progs, 1, vec![]);
                        if let Some(s) = crate::r1cs::golden(prog, goal) {
                            let b = serde_json::to_vec(&s).unwrap();
                            let mut k = 0;
                            while k < b.len() {
                                let n = libc::write(fds[1], b[k..].as_ptr() as *const _, b.len() - k);
                                if n <= 0 {
                                    break;
                                }
                                k += n as usize;
                            }
                        }
                    });
                });
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut f = std::fs::File::from_raw_fd(fds[0]);
            let mut b = vec![];
            let _ = f.read_to_end(&mut b);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if let Ok(s) = serde_json::from_slice(&b) {
                out.push(s);
            }
        }
    }
    out
}

/// Runs a plan in a child process. With a script the schedule and faults are those recorded.
pub fn run_plan(p: &Plan, script: Option<&[Event]>, m: *mut Shm) -> Outcome {
    #[cfg(feature = "full")]
    let golden = goldens(p);
    #[cfg(feature = "full")]
    let golden_digest = golden.iter().flat_map(|s| s.rows.iter().chain([&(s.counts.0 as u64), &(s.counts.1 as u64)]).copied().collect::<Vec<_>>()).fold(golden.len() as u64, |a, x| mix(a.rotate_left(9) ^ x));
    #[cfg(not(feature = "full"))]
    let golden_digest = 0;
    unsafe {
        std::ptr::write_bytes(m as *mut u8, 0, std::mem::offset_of!(Shm, ev));
        (*m).msg_len = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            kernel::shm_attach(m);
            child(
                p.clone(),
                script,
                #[cfg(feature = "full")]
                golden,
            );
        }
        let mut st = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        while libc::wait4(pid, &mut st, 0, &mut ru) < 0 {}
        let s = &*m;
        let msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).to_string();
        let at = || {
            let name = p.all().iter().find(|o| o.oid == s.cur_oid).map_or("?".into(), |o| o.op.name());
            format!("operation {} ({name})", s.cur_oid)
        };
        let violation = if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec > 20 {
                None // not stuck: this machine is overloaded; the processor time limit decides
            } else if sig == libc::SIGXCPU || sig == libc::SIGALRM {
                Some(format!("held-up: {} never returned (no progress within the time limit)", at()))
            } else if sig == libc::SIGKILL && s.in_op == 0 {
                Some("harness: run was killed from outside".into())
            } else {
                let r = if s.refused > 0 { format!(" after {} allocation(s) were refused", s.refused) } else { String::new() };
                Some(format!("crash: process died with signal {sig} in {}{r}", at()))
            }
        } else if s.status == 2 {
            Some(msg)
        } else if s.status == 1 {
            None
        } else if s.in_op != 0 {
            Some(format!("crash: process exited with status {} in {}", libc::WEXITSTATUS(st), at()))
        } else {
            Some(format!("harness: child exited with status {} outside any operation: {msg}", libc::WEXITSTATUS(st)))
        };
        let n = (s.nev as usize).min(MAXEV);
        Outcome { violation, events: s.ev[..n].to_vec(), trace: s.trace, digest: s.digest, points: s.points, cur_oid: s.cur_oid, golden: golden_digest }
    }
}

// ------------------------------------------------------------------ minimisation

fn same(a: &str, b: &str) -> bool {
    class_of(a) == class_of(b)
}

fn drop_thread(p: &Plan, ev: &[Event], t: usize) -> (Plan, Vec<Event>) {
    let mut q = p.clone();
    q.threads.remove(t);
    let e = ev
        .iter()
        .filter_map(|e| match e.act {
            Act::Preempt(x) if x as usize == t => None,
            Act::Preempt(x) if x as usize > t => Some(Event { act: Act::Preempt(x - 1), ..*e }),
            _ => Some(*e),
        })
        .collect::<Vec<_>>();
    let e = plan::events_ok(&q, &e);
    (q, e)
}

fn op_values(o: &mut Op) -> Vec<&mut V> {
    match o {
        Op::Hash { d, x, .. } | Op::HashMany { d, x, .. } => std::iter::once(d).chain(x.iter_mut()).collect(),
        Op::Fresh { x, .. } | Op::Call { x, .. } | Op::CallMany { x, .. } => x.iter_mut().collect(),
        Op::Mat { s, .. } | Op::MatMany { s, .. } | Op::LMat { s, .. } => vec![s],
        Op::LNew { e, .. } => e.iter_mut().collect(),
        Op::LSet { v, .. } => vec![v],
        Op::New2 { a, b, c, d } => vec![a, b, c, d],
        #[cfg(feature = "full")]
        Op::R(r) => r.values(),
        _ => vec![],
    }
}

pub fn minimise(p0: &Plan, e0: &[Event], msg: &str, m: *mut Shm, budget: Duration) -> (Plan, Vec<Event>, String, u64) {
    let t0 = Instant::now();
    let (mut p, mut e, mut best) = (p0.clone(), e0.to_vec(), msg.to_string());
    let mut tries = 0u64;
    macro_rules! attempt {
        ($q:expr, $f:expr) => {{
            let (q, f): (Plan, Vec<Event>) = ($q, $f);
            tries += 1;
            let o = run_plan(&q, Some(&f), m);
            match o.violation {
                Some(v) if same(&v, &best) => {
                    p = q;
                    e = f;
                    best = v;
                    true
                }
                _ => false,
            }
        }};
    }
    let late = || t0.elapsed() > budget;
    // no faults or preemptions at all?
    if !attempt!(p.clone(), vec![]) {
        loop {
            let before = (e.len(), p.all().len(), p.threads.len());
            // events, in halving chunks
            let mut chunk = (e.len() / 2).max(1);
            while !late() {
                let mut i = 0;
                while i < e.len() && !late() {
                    let mut f = e.clone();
                    f.drain(i..(i + chunk).min(e.len()));
                    if !attempt!(p.clone(), f) {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            shrink_ops(&mut p, &mut e, &mut best, &mut tries, m, &late);
            if late() || before == (e.len(), p.all().len(), p.threads.len()) {
                break;
            }
        }
    } else {
        shrink_ops(&mut p, &mut e, &mut best, &mut tries, m, &late);
    }
    // values
    let n_vals: usize = p.threads.iter_mut().flatten().map(|o| op_values(&mut o.op).len()).sum();
    for k in 0..n_vals {
        for cand in [V::small(0), V::small(1), V::small(k as u64 + 2)] {
            if late() {
                break;
            }
            let mut q = p.clone();
            let mut i = 0;
            let mut changed = false;
            for o in q.threads.iter_mut().flatten() {
                for v in op_values(&mut o.op) {
                    if i == k && v.0[8..].iter().any(|b| *b != 0) {
                        *v = cand;
                        changed = true;
                    }
                    i += 1;
                }
            }
            if changed && attempt!(q, e.clone()) {
                break;
            }
        }
    }
    (p, e, best, tries)
}

fn shrink_ops(p: &mut Plan, e: &mut Vec<Event>, best: &mut String, tries: &mut u64, m: *mut Shm, late: &dyn Fn() -> bool) {
    let mut attempt = |q: Plan, f: Vec<Event>, p: &mut Plan, e: &mut Vec<Event>| -> bool {
        *tries += 1;
        let o = run_plan(&q, Some(&f), m);
        match o.violation {
            Some(v) if same(&v, best) => {
                *p = q;
                *e = f;
                *best = v;
                true
            }
            _ => false,
        }
    };
    let mut t = 0;
    while t < p.threads.len() && p.threads.len() > 1 && !late() {
        let (q, f) = drop_thread(p, e, t);
        if !attempt(q, f, p, e) {
            t += 1;
        }
    }
    for t in 0..p.threads.len() {
        let mut chunk = (p.threads[t].len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < p.threads[t].len() && !late() {
                let mut q = p.clone();
                let end = (i + chunk).min(q.threads[t].len());
                q.threads[t].drain(i..end);
                let f = plan::events_ok(&q, e);
                if !attempt(q, f, p, e) {
                    i += chunk;
                }
            }
            if chunk == 1 || late() {
                break;
            }
            chunk /= 2;
        }
    }
    let mut i = 0;
    while i < p.irqs.len() && !late() {
        let mut q = p.clone();
        let oid = q.irqs.remove(i).oid;
        let f: Vec<Event> = e.iter().copied().filter(|x| x.oid != oid && x.act != Act::Interrupt(oid)).collect();
        if !attempt(q, f, p, e) {
            i += 1;
        }
    }
    #[cfg(feature = "full")]
    {
        // corruptions
        for t in 0..p.threads.len() {
            for k in 0..p.threads[t].len() {
                let mut i = 0;
                loop {
                    let mut q = p.clone();
                    match &mut q.threads[t][k].op {
                        Op::R(crate::r1cs::ROp::Tamper { list, .. }) if i < list.len() && list.len() > 1 => {
                            list.remove(i);
                        }
                        _ => break,
                    }
                    let f = e.clone();
                    if late() || !attempt(q, f, p, e) {
                        i += 1;
                    }
                }
            }
        }
        // clusters
        for what in 0..3 {
            let len = |p: &Plan| match p.threads.get(0).and_then(|t| t.get(0)).map(|o| &o.op) {
                Some(Op::R(crate::r1cs::ROp::Cluster(c))) => [c.faults.len(), c.jobs.len(), c.keys.len()][what],
                _ => 0,
            };
            let mut chunk = len(p).div_ceil(2);
            while chunk > 0 {
                let mut i = 0;
                while i < len(p) && !late() {
                    let mut q = p.clone();
                    if let Op::R(crate::r1cs::ROp::Cluster(c)) = &mut q.threads[0][0].op {
                        let end = (i + chunk).min(len(p));
                        match what {
                            0 => drop(c.faults.drain(i..end)),
                            1 => drop(c.jobs.drain(i..end)),
                            _ => drop(c.keys.drain(i..end)),
                        }
                    }
                    let f = e.clone();
                    if !attempt(q, f, p, e) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        if let Some(Op::R(crate::r1cs::ROp::Cluster(_))) = p.threads.get(0).and_then(|t| t.get(0)).map(|o| &o.op) {
            for which in 0..3 {
                let mut q = p.clone();
                if let Op::R(crate::r1cs::ROp::Cluster(c)) = &mut q.threads[0][0].op {
                    [&mut c.keygens, &mut c.provers, &mut c.verifiers].into_iter().nth(which).map(|x| *x = 1);
                }
                let f = e.clone();
                if !late() {
                    attempt(q, f, p, e);
                }
            }
        }
        // circuit programs
        for k in 0..p.progs.len() {
            let mut i = p.progs[k].len();
            while i > 0 && !late() {
                i -= 1;
                let mut q = p.clone();
                q.progs[k] = crate::r1cs::remove_stmt(&q.progs[k], i);
                let f = e.clone();
                attempt(q, f, p, e);
            }
        }
    }
    // repeat counts
    for t in 0..p.threads.len() {
        for k in 0..p.threads[t].len() {
            loop {
                let mut q = p.clone();
                let n = match &mut q.threads[t][k].op {
                    Op::HashMany { n, .. } | Op::CallMany { n, .. } | Op::MatMany { n, .. } if *n > 1 => n,
                    _ => break,
                };
                *n /= 2;
                let f = e.clone();
                if late() || !attempt(q, f, p, e) {
                    break;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ replay files

const ATTEMPTS: u32 = 24;
/// Gives the next run a differently laid out heap.
fn shift_heap(k: u32) {
    for i in 0..k as usize % 7 {
        std::mem::forget(vec![0u8; 24 + 16 * ((k as usize * 5 + i * 3) % 61)]);
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub variant: String,
    pub violation: String,
    pub minimised: String,
    /// 0: the schedule below reproduces the violation; n: the run is repeated from its seed, up to n times
    #[serde(default)]
    pub attempts: u32,
    pub events: Vec<Event>,
    pub plan: Plan,
}

pub fn replay(path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let r: Replay = serde_json::from_str(&txt).expect("replay file format");
    if r.variant == "all" {
        return crate::builds::replay(&r, path);
    }
    let m = kernel::shm_new();
    kernel::cover_new();
    #[cfg(feature = "full")]
    if r.property == "C08" {
        crate::r1cs::cluster::preload();
    }
    let mut o = run_plan(&r.plan, if r.attempts == 0 { Some(&r.events) } else { None }, m);
    for k in 1..r.attempts {
        if o.violation.is_some() {
            break;
        }
        shift_heap(k);
        o = run_plan(&r.plan, None, m);
    }
    match o.violation {
        Some(v) if class_of(&v) == "harness" => {
            eprintln!("error: {v}");
            2
        }
        Some(v) => {
            println!("{v}");
            println!("trace {:016x}", o.trace);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("not reproduced: the property held in this replay (trace {:016x})", o.trace);
            0
        }
    }
}

// ------------------------------------------------------------------ a whole check

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Sum {
    pub runs: u64,
    pub ops: u64,
    pub points: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub fired: Vec<u64>,
    pub refused: u64,
    pub futex_waits: u64,
    pub shared_hits: u64,
    pub allocs: u64,
    pub panics: u64,
    pub max_inflight: u64,
    #[serde(default)]
    pub closest: u64,
    pub slowest: f64,
    pub multi: u64,
    pub guards: u64,
    pub covered: u64,
    pub probes: Vec<u64>,
    pub redone: u64,
    pub traces: Vec<u64>,
    pub nontrivial: u64,
    pub op_kinds: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub elapsed_s: f64,
    pub viol: Option<(u64, u64, String)>,
    pub harness: Option<String>,
    #[serde(default)]
    pub warnings: Vec<String>,
    pub digests: BTreeMap<u64, u64>,
}

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub secs: f64,
    pub workers: u64,
    pub max_runs: u64,
    pub verif: String,
    pub variant: String,
    pub keep_digests: bool,
}

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    mix(mix(seed ^ p.wrapping_mul(0x9e37)) ^ i.wrapping_mul(0xd1342543de82ef95))
}

static STOP_WORD: AtomicU32 = AtomicU32::new(0);

struct Shared {
    stop: AtomicU32,
    next: AtomicU64,
}

fn shared() -> &'static Shared {
    let _ = &STOP_WORD;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

fn worker(cfg: &Cfg, w: u64, sh: &Shared, out: &str) {
    let t0 = Instant::now();
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET((w % 8) as usize, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
    let m = kernel::shm_new();
    let cover = kernel::cover_new();
    let mut s = Sum { fired: vec![0; NACT], probes: vec![0; kernel::NPROBE], ..Default::default() };
    let mut traces: HashSet<u64> = HashSet::new();
    let mut i = w;
    while i < cfg.max_runs && sh.stop.load(SeqCst) == 0 && t0.elapsed().as_secs_f64() < cfg.secs {
        let seed = run_seed(&cfg.prop, cfg.seed, i);
        let p = plan::gen(&cfg.prop, seed, i, cfg.thorough);
        let r0 = Instant::now();
        let o = run_plan(&p, None, m);
        s.slowest = s.slowest.max(r0.elapsed().as_secs_f64());
        if r0.elapsed().as_secs_f64() > 4.0 && std::env::var_os("PSIM_SLOW").is_some() {
            eprintln!("run {i} (seed {seed}) took {:.1} s: {:?}", r0.elapsed().as_secs_f64(), p.all().iter().take(12).map(|o| o.op.name()).collect::<Vec<_>>());
        }
        s.runs += 1;
        let d = unsafe { &*m };
        s.ops += p.all().len() as u64;
        s.points += d.points;
        s.switches += d.switches;
        s.sim_ns += d.clock_ns.saturating_sub(1_700_000_000_000_000_000).min(1 << 62) / 1000;
        for k in 0..NACT {
            s.fired[k] += d.fired[k];
        }
        if p.refuse_from_start {
            s.fired[5] += 1;
        }
        for k in 0..kernel::NPROBE {
            s.probes[k] += d.probes[k];
        }
        s.refused += d.refused;
        s.futex_waits += d.futex_waits;
        s.shared_hits += d.shared_hits;
        s.allocs += d.allocs;
        s.panics += d.panics;
        s.max_inflight = s.max_inflight.max(d.max_inflight as u64);
        s.closest = s.closest.max(d.closest as u64);
        s.guards = s.guards.max(d.guards as u64);
        if d.max_inflight > 1 {
            s.multi += 1;
        }
        for o in p.all() {
            *s.op_kinds.entry(kind_name(&o.op)).or_default() += 1;
        }
        let key = p.shape_hash() ^ o.trace.rotate_left(7);
        let nontrivial = o.events.iter().any(|e| !matches!(e.act, Act::Preempt(_)) || e.pt > 0) || p.refuse_from_start || nontrivial_alone(&p);
        if nontrivial && traces.len() < 2_000_000 && traces.insert(key) {
            s.nontrivial += 1;
        }
        if cfg.keep_digests && cfg.prop == "C10" && p.comparable() {
            s.digests.insert(i, o.digest);
        }
        if cfg.keep_digests && cfg.prop == "C06" {
            s.digests.insert(i, o.golden);
        }
        if s.samples.len() < 2 && nontrivial && o.events.len() <= 12 && p.all().len() <= 8 && w < 2 {
            s.samples.push(serde_json::json!({"run": i, "seed": seed,
                "threads": p.threads.iter().map(|t| t.iter().map(|o| o.op.name()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "interrupt_handlers": p.irqs.iter().map(|o| o.op.name()).collect::<Vec<_>>(),
                "events": o.events, "trace": format!("{:016x}", o.trace)}));
        }
        if let Some(v) = &o.violation {
            if class_of(v) == "harness" {
                s.harness = Some(v.clone());
            } else {
                s.viol = Some((i, seed, v.clone()));
            }
            sh.stop.store(1, SeqCst);
            break;
        }
        // determinism: repeat some runs and compare
        if i % 64 == 1 {
            let o2 = run_plan(&p, None, m);
            let o3 = run_plan(&p, Some(&o.events), m);
            s.redone += 2;
            for (n, x) in [("seed", &o2), ("recorded schedule", &o3)] {
                if x.digest != o.digest || x.trace != o.trace || x.events != o.events || x.violation.is_some() {
                    // every value was checked all the same: a loss of repeatability, not of a verdict
                    s.warnings.push(format!(
                        "run {i} did not repeat from its {n}: trace {:x}/{:x} digest {:x}/{:x} {:?}",
                        o.trace, x.trace, o.digest, x.digest, x.violation
                    ));
                }
            }
        }
        i += cfg.workers;
    }
    s.covered = cover.iter().map(|x| *x as u64).sum();
    s.traces = traces.into_iter().collect();
    s.elapsed_s = t0.elapsed().as_secs_f64();
    let _ = sh.next.load(SeqCst);
    std::fs::write(out, serde_json::to_vec(&s).unwrap()).unwrap();
}

/// Histories that are a case of the property without any scheduling event.
fn nontrivial_alone(p: &Plan) -> bool {
    match p.prop.as_str() {
        "C01" | "C03" | "C04" => false,
        #[cfg(feature = "full")]
        "C08" => p.all().iter().any(|o| match &o.op {
            Op::R(crate::r1cs::ROp::Cluster(c)) => !c.faults.is_empty() || c.jobs.iter().any(|j| j.cheat.is_some()),
            _ => false,
        }),
        _ => p.all().len() >= 2,
    }
}

fn kind_name(o: &Op) -> String {
    match o {
        Op::Fresh { opt, .. } => format!("fresh instance {}", if *opt { "optimized" } else { "unoptimized" }),
        Op::HashMany { rate, .. } => format!("hash_{rate} repeated"),
        Op::CallMany { .. } => "instance call repeated".into(),
        Op::MatMany { op, .. } => format!("shared matrix {:?} repeated", poseidon_shim::MATOPS[*op]),
        Op::Field { f, .. } => format!("read {}", if *f == 13 { "w_hat_collection" } else { poseidon_shim::FIELDS[*f] }),
        Op::Nums { .. } => "read rounds/alpha/dims".into(),
        Op::CloneSet { .. } => "clone parameter set".into(),
        Op::LNew { .. } => "new private matrix".into(),
        #[cfg(feature = "full")]
        Op::R(crate::r1cs::ROp::Cluster(c)) => if c.shipped { "cluster history with the shipped keys" } else { "cluster history" }.into(),
        o => o.name(),
    }
}

pub fn merge(a: &mut Sum, b: Sum) {
    a.runs += b.runs;
    a.ops += b.ops;
    a.points += b.points;
    a.switches += b.switches;
    a.sim_ns = a.sim_ns.saturating_add(b.sim_ns);
    a.fired.resize(NACT, 0);
    for (x, y) in a.fired.iter_mut().zip(b.fired) {
        *x += y;
    }
    a.probes.resize(kernel::NPROBE, 0);
    for (x, y) in a.probes.iter_mut().zip(b.probes) {
        *x += y;
    }
    a.refused += b.refused;
    a.futex_waits += b.futex_waits;
    a.shared_hits += b.shared_hits;
    a.allocs += b.allocs;
    a.panics += b.panics;
    a.multi += b.multi;
    a.max_inflight = a.max_inflight.max(b.max_inflight);
    a.closest = a.closest.max(b.closest);
    a.slowest = a.slowest.max(b.slowest);
    a.guards = a.guards.max(b.guards);
    a.covered = a.covered.max(b.covered);
    a.redone += b.redone;
    a.traces.extend(b.traces);
    for (k, v) in b.op_kinds {
        *a.op_kinds.entry(k).or_default() += v;
    }
    a.samples.extend(b.samples);
    a.elapsed_s = a.elapsed_s.max(b.elapsed_s);
    if let Some(v) = b.viol {
        if a.viol.as_ref().map_or(true, |x| v.0 < x.0) {
            a.viol = Some(v);
        }
    }
    a.warnings.extend(b.warnings);
    a.warnings.truncate(20);
    if a.harness.is_none() {
        a.harness = b.harness;
    }
    a.digests.extend(b.digests);
}

/// Runs the simulated runs of a check on all workers.
pub fn explore(cfg: &Cfg) -> Sum {
    let sh = shared();
    let dir = format!("{}/sim/target/work/{}-{}", cfg.verif, cfg.prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    #[cfg(feature = "full")]
    if cfg.prop == "C08" {
        crate::r1cs::cluster::preload();
    }
    // the reference constants are computed once, before forking
    for id in 0..crate::reference::n_sets() {
        crate::reference::set(id);
    }
    let mut pids = vec![];
    for w in 0..cfg.workers {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                worker(cfg, w, sh, &format!("{dir}/{w}.json"));
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    let mut sum = Sum::default();
    for (w, pid) in pids.into_iter().enumerate() {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        let f = format!("{dir}/{w}.json");
        match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice::<Sum>(&b).ok()) {
            Some(s) => merge(&mut sum, s),
            None => sum.harness = Some(format!("harness: worker {w} ended with status {st}")),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    sum.traces.sort();
    sum.traces.dedup();
    sum
}

/// Minimises, writes the replay file, and confirms it in a fresh process.
pub fn report(cfg: &Cfg, i: u64, seed: u64, msg: &str) -> Result<String, String> {
    kernel::cover_new();
    let m = kernel::shm_new();
    let p = plan::gen(&cfg.prop, seed, i, cfg.thorough);
    // the events of the failing run
    let mut found = None;
    for k in 0..ATTEMPTS {
        shift_heap(k);
        let o = run_plan(&p, None, m);
        if let Some(v) = o.violation {
            found = Some((o.events, v));
            break;
        }
    }
    let n_ev = found.as_ref().map_or(0, |f| f.0.len());
    let replays = found.as_ref().and_then(|(ev, _)| run_plan(&p, Some(ev), m).violation);
    let (q, f, best, tries, attempts) = match (found, replays) {
        (Some((ev, v)), Some(r)) if same(&r, &v) => {
            let (q, f, best, tries) = minimise(&p, &ev, &v, m, Duration::from_secs(if cfg.thorough { 180 } else { 60 }));
            (q, f, best, tries, 0)
        }
        // the code under test depends on something the simulator does not decide (such as the
        // addresses of its memory): the replay starts from the seed and may take several attempts
        (Some((ev, v)), _) => (p.clone(), ev, v, 0, ATTEMPTS),
        (None, _) => (p.clone(), vec![], msg.to_string(), 0, ATTEMPTS),
    };
    let dir = format!("{}/replays", cfg.verif);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let v = if cfg.variant == "rel" { String::new() } else { format!("-{}", cfg.variant) };
    let path = format!("{dir}/{}-{}-{i}{v}.json", cfg.prop, cfg.seed);
    let r = Replay {
        property: cfg.prop.clone(),
        seed: cfg.seed,
        run: i,
        variant: cfg.variant.clone(),
        violation: best.clone(),
        minimised: format!(
            "{} operations, {} events, {} callers; originally {} operations, {} events, {} callers ({tries} replays)",
            q.all().len(), f.len(), q.threads.len(), p.all().len(), n_ev, p.threads.len()
        ),
        attempts,
        events: f,
        plan: q,
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).arg("replay").arg(&path).output().map_err(|e| e.to_string())?;
    if out.status.code() != Some(1) {
        if attempts == 0 {
            // reproduced in this process, not in a fresh one: keep the original run, by its seed
            let r = Replay { minimised: "not minimised".into(), violation: msg.into(), attempts: ATTEMPTS, events: vec![], plan: p, ..r };
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
        }
        eprintln!("warning: the violation depends on something outside the simulator's control; the replay file starts from the seed and may need several attempts");
    }
    println!("{best}");
    println!("minimised to {}", r.minimised);
    Ok(path)
}

pub fn fired_json(s: &Sum) -> serde_json::Value {
    let mut m = serde_json::Map::new();
    for (k, n) in s.fired.iter().zip(ACT_NAMES) {
        m.insert(n.into(), (*k).into());
    }
    serde_json::Value::Object(m)
}

#[allow(dead_code)]
fn _unused(_: &OpRec) {}
