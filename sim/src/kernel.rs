//! The simulator's scheduler and fault injector.
//!
//! One simulated run lives in one process. Caller threads are real OS threads (so that
//! thread-locals and stacks are real), of which exactly one holds the baton; all others sleep on a
//! futex. The instrumented library calls back on every branch, load and store; those callbacks,
//! allocations, and the interposed futex/yield/sleep/clock calls are the points at which the
//! seeded scheduler decides who continues and which fault strikes. In replay mode the decisions
//! come from a recorded list keyed by (operation id, point number within the operation).
#![allow(static_mut_refs)]

use crate::rng::Rng;
use libc::{c_int, c_long, c_void};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAXT: usize = 40;
pub const MAXG: usize = 1 << 18;
pub const MAXEV: usize = 1 << 15;
/// A caller that has made this many steps in one operation lets the others run (fair scheduling).
const ROT: u64 = 1 << 17;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    /// continue with this thread
    Preempt(u32),
    /// pause this thread until all others have finished
    Stall,
    /// this thread never runs again
    Kill,
    /// run this interrupt operation on top of the current one, on the same thread
    Interrupt(u32),
    /// the clock jumps by this many milliseconds
    Clock(i64),
    /// from here on no allocation made by the library succeeds
    Refuse,
}
pub const NPROBE: usize = 48;
pub const NACT: usize = 6;
pub const ACT_NAMES: [&str; NACT] = ["preempt", "pause", "kill", "interrupt", "clock_jump", "heap_exhausted"];
impl Act {
    pub fn index(self) -> usize {
        match self {
            Act::Preempt(_) => 0,
            Act::Stall => 1,
            Act::Kill => 2,
            Act::Interrupt(_) => 3,
            Act::Clock(_) => 4,
            Act::Refuse => 5,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Event {
    pub oid: u32,
    pub pt: u64,
    pub act: Act,
}

/// How the scheduler explores in one run (drawn per run).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Strat {
    pub seed: u64,
    /// chances, out of 65536, of acting at a first-visited branch, at an access to writable
    /// process-wide memory, at an allocation, and at the start of an operation
    pub p_cold: u32,
    pub p_shared: u32,
    pub p_alloc: u32,
    pub p_start: u32,
    /// random quanta of 2^lo..2^hi points
    pub qlo: u32,
    pub qhi: u32,
    pub weights: [u64; NACT],
    pub budget: u32,
    /// prefer threads that have not started yet
    pub pile: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    Stalled,
    Killed,
    Done,
}

#[derive(Clone, Copy)]
struct Ctx {
    active: bool,
    oid: u32,
    pts: u64,
    next: u64,
    qnext: u64,
    evi: usize,
    depth: u32,
    cap: u64,
}
const CTX0: Ctx = Ctx { active: false, oid: u32::MAX, pts: 0, next: u64::MAX, qnext: u64::MAX, evi: 0, depth: 0, cap: u64::MAX };

struct Th {
    st: St,
    ctx: Ctx,
    futex: usize,
    deadline: u64,
    timed_out: bool,
    started: bool,
}
const TH0: Th = Th { st: St::Done, ctx: CTX0, futex: 0, deadline: u64::MAX, timed_out: false, started: false };

static mut C: Ctx = CTX0;
static mut TH: [Th; MAXT] = [TH0; MAXT];
static WORD: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
static mut NT: usize = 0;
static mut CUR: usize = 0;
static mut RUNNING: bool = false;
static mut REPLAY: bool = false;
static mut STRICT: bool = false;
static mut CAP: u64 = u64::MAX;
static mut RNG: Rng = Rng::zero();
static mut STRAT: Option<Strat> = None;
static mut P_COLD: u32 = 0;
static mut SCRIPT: Vec<Event> = Vec::new();
/// start of each operation's events within SCRIPT
static mut SCRIPT_AT: Vec<(usize, usize)> = Vec::new();
static mut IRQS: Vec<u32> = Vec::new();
static mut EXEC: Option<fn(u32)> = None;
static mut REFUSE: bool = false;
static mut SEEN: [u32; MAXG] = [0; MAXG];
static mut COVER: *mut u8 = std::ptr::null_mut();
static mut NGUARDS: u32 = 0;
static mut CLOCK_NS: u64 = 0;
static mut LOC: u32 = 0;
static mut BASE_PTS: u64 = 0;

/// What a run leaves behind, in memory shared with the parent (it survives a crash of the run).
#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 running, 1 finished, 2 violation
    pub nev: u32,
    pub cur_oid: u32,
    pub in_op: u32,
    pub points: u64,
    pub switches: u64,
    pub clock_ns: u64,
    pub fired: [u64; NACT],
    pub refused: u64,
    pub futex_waits: u64,
    pub shared_hits: u64,
    pub allocs: u64,
    pub trace: u64,
    pub max_inflight: u32,
    /// closest any operation came to its step bound, in thousandths
    pub closest: u32,
    pub guards: u32,
    pub panics: u64,
    pub probes: [u64; NPROBE],
    pub digest: u64,
    pub ev: [Event; MAXEV],
    pub msg_len: u32,
    pub msg: [u8; 1 << 16],
}
static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn shm_new() -> *mut Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shm
    }
}
pub fn shm_attach(p: *mut Shm) {
    unsafe { SHM = p }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn set_msg(s: &str) {
    let m = shm();
    let b = s.as_bytes();
    let n = b.len().min(m.msg.len());
    m.msg[..n].copy_from_slice(&b[..n]);
    m.msg_len = n as u32;
}

/// Ends the run with a violation.
pub fn fail(msg: &str) -> ! {
    unsafe {
        C.active = false;
        flush_stats();
        set_msg(msg);
        shm().status = 2;
        libc::_exit(0)
    }
}

// ------------------------------------------------------------------ raw futex (the libc symbol is interposed)

unsafe fn raw_syscall6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
fn wait_word(i: usize) {
    while WORD[i].load(SeqCst) == 0 {
        unsafe {
            raw_syscall6(libc::SYS_futex, WORD[i].as_ptr() as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
        }
    }
    WORD[i].store(0, SeqCst);
}
fn wake_word(i: usize) {
    WORD[i].store(1, SeqCst);
    unsafe {
        raw_syscall6(libc::SYS_futex, WORD[i].as_ptr() as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}

// ------------------------------------------------------------------ scheduling

unsafe fn trace(x: u64) {
    let m = shm();
    m.trace = (m.trace ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
}

unsafe fn inflight() -> u32 {
    (0..NT).filter(|&i| i != CUR && TH[i].ctx.active && TH[i].st != St::Done).count() as u32 + 1
}

/// Hands the baton to `to`; returns when the caller gets it back (never, for killed callers).
unsafe fn switch(to: usize) {
    let me = CUR;
    if to == me {
        return;
    }
    let m = shm();
    m.switches += 1;
    trace(((me as u64) << 48) ^ ((to as u64) << 40) ^ LOC as u64);
    TH[me].ctx = C;
    CUR = to;
    C = TH[to].ctx;
    if C.active {
        m.cur_oid = C.oid;
    }
    TH[to].started = true;
    let n = inflight();
    if n > m.max_inflight {
        m.max_inflight = n;
    }
    wake_word(to);
    wait_word(me);
}

/// The current thread cannot go on; find who can, or decide what that means.
unsafe fn pick_next() -> Option<usize> {
    loop {
        for k in 1..=NT {
            let i = (CUR + k) % NT;
            if TH[i].st == St::Ready {
                return Some(i);
            }
        }
        // a timed wait expires
        let mut best: Option<usize> = None;
        for i in 0..NT {
            if TH[i].st == St::Blocked && TH[i].deadline != u64::MAX && best.map_or(true, |b| TH[i].deadline < TH[b].deadline) {
                best = Some(i);
            }
        }
        if let Some(b) = best {
            if TH[b].deadline > CLOCK_NS {
                CLOCK_NS = TH[b].deadline;
            }
            TH[b].timed_out = true;
            TH[b].st = St::Ready;
            return Some(b);
        }
        let blocked = (0..NT).find(|&i| TH[i].st == St::Blocked);
        let stalled = (0..NT).any(|i| TH[i].st == St::Stalled);
        if let Some(b) = blocked {
            if STRICT || !stalled {
                C.active = false;
                let oid = TH[b].ctx.oid;
                let by = if stalled { "a paused caller" } else if (0..NT).any(|i| TH[i].st == St::Killed) { "a killed caller" } else { "other callers or itself (deadlock)" };
                shm().cur_oid = oid;
                fail(&format!("held-up: caller {b} waits forever in operation {oid}, held up by {by}"));
            }
        }
        if stalled {
            for i in 0..NT {
                if TH[i].st == St::Stalled {
                    TH[i].st = St::Ready;
                }
            }
            continue;
        }
        return None;
    }
}

unsafe fn leave_cpu(st: St) {
    let me = CUR;
    TH[me].st = st;
    match pick_next() {
        Some(n) if n == me => TH[me].st = St::Ready,
        Some(n) => switch(n),
        None => {
            // everybody is done or killed
            if st == St::Killed {
                TH[me].ctx = C;
                wake_word(MAXT);
                loop {
                    wait_word(me);
                }
            }
        }
    }
}

unsafe fn yield_cyclic() {
    for k in 1..NT {
        let i = (CUR + k) % NT;
        if TH[i].st == St::Ready {
            switch(i);
            return;
        }
    }
}

unsafe fn perform(act: Act) {
    let m = shm();
    m.fired[act.index()] += 1;
    trace(0x9e37 + act.index() as u64 * 0x1000_0000 + LOC as u64);
    match act {
        Act::Preempt(t) => {
            let t = t as usize;
            if t < NT && t != CUR && TH[t].st == St::Ready {
                switch(t);
            }
        }
        Act::Stall => {
            if (0..NT).any(|i| i != CUR && TH[i].st == St::Ready) {
                leave_cpu(St::Stalled);
            }
        }
        Act::Kill => leave_cpu(St::Killed),
        Act::Interrupt(oid) => {
            if C.depth < 2 {
                let save = C;
                C = CTX0;
                C.depth = save.depth + 1;
                (EXEC.unwrap())(oid);
                C = save;
            }
        }
        Act::Clock(ms) => {
            let d = ms.unsigned_abs() * 1_000_000;
            CLOCK_NS = if ms < 0 { CLOCK_NS.saturating_sub(d) } else { CLOCK_NS.saturating_add(d) };
        }
        Act::Refuse => REFUSE = true,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Quantum,
    Cold,
    Shared,
    Alloc,
    Start,
}

unsafe fn decide(kind: Kind) -> Option<Act> {
    let s = STRAT.as_ref().unwrap();
    if s.budget == 0 {
        return None;
    }
    let p = match kind {
        Kind::Quantum => 65536,
        Kind::Cold => s.p_cold,
        Kind::Shared => s.p_shared,
        Kind::Alloc => s.p_alloc,
        Kind::Start => s.p_start,
    };
    if p < 65536 && RNG.below(65536) as u32 >= p {
        return None;
    }
    let mut w = s.weights;
    let ready: Vec<usize> = (0..NT).filter(|&i| i != CUR && TH[i].st == St::Ready).collect();
    if ready.is_empty() {
        w[0] = 0;
        w[1] = 0;
        w[2] = 0;
    }
    if IRQS.is_empty() || C.depth >= 2 {
        w[3] = 0;
    }
    if REFUSE {
        w[5] = 0;
    }
    if w.iter().sum::<u64>() == 0 {
        return None;
    }
    let act = match RNG.weighted(&w) {
        0 => {
            let fresh: Vec<usize> = ready.iter().copied().filter(|&i| !TH[i].started).collect();
            let t = if s.pile && !fresh.is_empty() { *RNG.pick(&fresh) } else { *RNG.pick(&ready) };
            Act::Preempt(t as u32)
        }
        1 => Act::Stall,
        2 => Act::Kill,
        3 => Act::Interrupt(IRQS.remove(0)),
        4 => {
            let m = RNG.log(0, 40) as i64;
            Act::Clock(if RNG.chance(1, 2) { -m } else { m })
        }
        _ => Act::Refuse,
    };
    STRAT.as_mut().unwrap().budget -= 1;
    Some(act)
}

unsafe fn record(act: Act) {
    let m = shm();
    if (m.nev as usize) < MAXEV {
        m.ev[m.nev as usize] = Event { oid: C.oid, pt: C.pts, act };
        m.nev += 1;
    }
}

unsafe fn set_next() {
    let mut n = (C.pts / ROT + 1) * ROT;
    if n > C.cap {
        n = C.cap;
    }
    if REPLAY {
        let end = SCRIPT_AT.get(C.oid as usize).map_or(0, |r| r.1);
        if C.evi < end && SCRIPT[C.evi].pt < n {
            n = SCRIPT[C.evi].pt;
        }
    } else if C.qnext < n {
        n = C.qnext;
    }
    C.next = n;
}

unsafe fn draw_quantum() {
    let s = STRAT.as_ref().unwrap();
    C.qnext = if s.qhi > s.qlo && s.budget > 0 { C.pts + RNG.log(s.qlo, s.qhi) } else { u64::MAX };
}

#[cold]
#[inline(never)]
unsafe fn slow(kind: Kind) {
    C.active = false;
    if C.pts >= C.cap {
        shm().cur_oid = C.oid;
        let why = if (0..NT).any(|i| TH[i].st == St::Stalled) {
            " while another caller is paused"
        } else if (0..NT).any(|i| TH[i].st == St::Killed) {
            " after another caller was killed"
        } else if C.depth > 0 {
            " inside a re-entrant call"
        } else {
            ""
        };
        fail(&format!("held-up: operation {} has not finished after {} of its own steps{why}", C.oid, C.pts));
    }
    TH[CUR].ctx.active = true; // counts as in flight while it is switched out
    if C.pts > 0 && C.pts % ROT == 0 {
        C.active = true;
        yield_cyclic();
        C.active = false;
    }
    if REPLAY {
        loop {
            let end = SCRIPT_AT.get(C.oid as usize).map_or(0, |r| r.1);
            if C.evi < end && SCRIPT[C.evi].pt <= C.pts {
                let e = SCRIPT[C.evi];
                C.evi += 1;
                record(e.act);
                C.active = true;
                perform_active(e.act);
                C.active = false;
            } else {
                break;
            }
        }
    } else {
        let due = C.pts >= C.qnext;
        if let Some(a) = decide(if due { Kind::Quantum } else { kind }) {
            record(a);
            C.active = true;
            perform_active(a);
            C.active = false;
        }
        if due {
            draw_quantum();
        }
    }
    set_next();
    C.active = true;
}

/// `perform` runs kernel code: nothing in it may count as library code, but the context that is
/// saved on a switch must say that this caller is inside an operation.
unsafe fn perform_active(a: Act) {
    perform(a)
}

/// Enters operation `oid` on the current thread: from here to `leave` every callback counts.
pub fn enter(oid: u32, reps: u32) {
    unsafe {
        if !RUNNING {
            return;
        }
        let m = shm();
        m.cur_oid = oid;
        m.in_op = 1;
        C.oid = oid;
        C.pts = 0;
        C.evi = SCRIPT_AT.get(oid as usize).map_or(0, |r| r.0);
        C.qnext = u64::MAX;
        C.cap = (CAP / 64).saturating_mul(reps as u64);
        if !REPLAY {
            draw_quantum();
        }
        LOC = 0x4000_0000 + oid;
        C.active = true;
        slow(Kind::Start);
    }
}
pub fn leave() -> u64 {
    unsafe {
        if !RUNNING {
            return 0;
        }
        C.active = false;
        BASE_PTS += C.pts;
        let m = shm();
        m.closest = m.closest.max((C.pts / (C.cap / 1000 + 1)) as u32);
        m.in_op = 0;
        C.pts
    }
}

/// Gives the others a turn until `ok` holds; false if it can never hold.
pub fn wait_until(mut ok: impl FnMut() -> bool) -> bool {
    unsafe {
        for _ in 0..10_000 {
            if ok() {
                return true;
            }
            if !(0..NT).any(|i| i != CUR && TH[i].st == St::Ready) {
                return false;
            }
            yield_cyclic();
        }
        false
    }
}

unsafe fn flush_stats() {
    if SHM.is_null() {
        return;
    }
    let m = shm();
    m.points = BASE_PTS + C.pts;
    m.clock_ns = CLOCK_NS;
    m.guards = NGUARDS;
}

pub struct RunCfg<'a> {
    pub threads: usize,
    pub strict: bool,
    pub cap: u64,
    pub strat: Option<Strat>,
    pub script: Option<&'a [Event]>,
    pub irqs: Vec<u32>,
    pub exec: fn(u32),
    pub n_oids: usize,
    pub refuse_from_start: bool,
    pub stack: usize,
}

/// Runs `body(thread)` on `threads` simulated caller threads to the end of the run.
pub fn run(cfg: RunCfg, body: fn(usize)) {
    unsafe {
        NT = cfg.threads;
        assert!(NT <= MAXT && NT > 0);
        STRICT = cfg.strict;
        CAP = cfg.cap;
        EXEC = Some(cfg.exec);
        IRQS = cfg.irqs;
        CLOCK_NS = 1_700_000_000_000_000_000;
        REFUSE = cfg.refuse_from_start;
        match cfg.script {
            Some(evs) => {
                REPLAY = true;
                P_COLD = 0;
                // group by operation, keeping order
                SCRIPT_AT = vec![(0, 0); cfg.n_oids];
                let mut by: Vec<Vec<Event>> = vec![vec![]; cfg.n_oids];
                for e in evs {
                    if (e.oid as usize) < cfg.n_oids {
                        by[e.oid as usize].push(*e);
                    }
                }
                SCRIPT = Vec::new();
                for (i, v) in by.iter_mut().enumerate() {
                    v.sort_by_key(|e| e.pt);
                    let a = SCRIPT.len();
                    SCRIPT.extend(v.iter());
                    SCRIPT_AT[i] = (a, SCRIPT.len());
                }
            }
            None => {
                REPLAY = false;
                let s = cfg.strat.unwrap();
                RNG = Rng::new(s.seed);
                P_COLD = s.p_cold;
                STRAT = Some(s);
            }
        }
        for t in 0..NT {
            TH[t] = TH0;
            TH[t].st = St::Ready;
        }
        let parked = AtomicU64::new(0);
        let parked: &'static AtomicU64 = std::mem::transmute(&parked);
        for t in 0..NT {
            std::thread::Builder::new()
                .stack_size(cfg.stack)
                .spawn(move || {
                    parked.fetch_add(1, SeqCst);
                    wait_word(t);
                    if let Err(e) = std::panic::catch_unwind(|| body(t)) {
                        C.active = false;
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        fail(&format!("panic: operation {} ended in a panic that nothing caught: {m}", C.oid));
                    }
                    finish_thread();
                })
                .expect("spawn");
        }
        while parked.load(SeqCst) < NT as u64 {
            raw_syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
        CUR = 0;
        C = CTX0;
        TH[0].started = true;
        RUNNING = true;
        wake_word(0);
        wait_word(MAXT);
        RUNNING = false;
        REFUSE = false;
        C = CTX0;
        flush_stats();
    }
}

unsafe fn finish_thread() -> ! {
    let me = CUR;
    C = CTX0;
    TH[me].ctx = CTX0;
    TH[me].st = St::Done;
    match pick_next() {
        Some(n) => switch(n),
        None => wake_word(MAXT),
    }
    loop {
        wait_word(me);
    }
}

pub fn current() -> usize {
    unsafe { CUR }
}
pub fn probe(i: usize) {
    if unsafe { !SHM.is_null() } {
        shm().probes[i] += 1;
    }
}
/// What the cluster simulation did: mixed into the run's trace and clock.
pub fn note(x: u64) {
    unsafe { trace(x) }
}
pub fn advance(ns: u64) {
    unsafe { CLOCK_NS += ns }
}
pub fn now_ns() -> u64 {
    unsafe { CLOCK_NS }
}
pub fn guards() -> u32 {
    unsafe { NGUARDS }
}
/// The coverage map, shared with the parent and accumulated over all runs of a worker.
pub fn cover_new() -> &'static [u8] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            MAXG,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        COVER = p as *mut u8;
        std::slice::from_raw_parts(COVER, MAXG)
    }
}
pub fn pts() -> u64 {
    unsafe { C.pts }
}

// ------------------------------------------------------------------ SanitizerCoverage callbacks

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !C.active {
        return;
    }
    C.pts += 1;
    let i = *g as usize & (MAXG - 1);
    *COVER.add(i) = 1;
    if SEEN[i] != C.oid + 1 {
        SEEN[i] = C.oid + 1;
        LOC = i as u32;
        if P_COLD > 0 || C.pts >= C.next {
            slow(Kind::Cold);
        }
    } else if C.pts >= C.next {
        // LOC stays: it must not depend on when the scheduler looked
        slow(Kind::Quantum);
    }
}

#[inline(always)]
unsafe fn access(a: usize) {
    if !C.active {
        return;
    }
    C.pts += 1;
    if a.wrapping_sub(&__data_start as *const u8 as usize) < (&_end as *const u8 as usize) - (&__data_start as *const u8 as usize) {
        shm().shared_hits += 1;
        slow(Kind::Shared);
    } else if C.pts >= C.next {
        slow(Kind::Quantum);
    }
}
macro_rules! acc {
    ($($n:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(a: usize) { access(a) })* };
}
acc!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);

// Copies into, out of and within process-wide memory are not atomic: others run between the words.

extern "C" {
    fn __memcpy_chk(d: *mut u8, s: *const u8, n: usize, dn: usize) -> *mut u8;
    fn __memmove_chk(d: *mut u8, s: *const u8, n: usize, dn: usize) -> *mut u8;
    fn __memset_chk(d: *mut u8, c: c_int, n: usize, dn: usize) -> *mut u8;
}
#[inline(always)]
unsafe fn torn(d: usize, s: usize, n: usize) -> bool {
    let lo = &__data_start as *const u8 as usize;
    let len = &_end as *const u8 as usize - lo;
    C.active && n > 8 && (d.wrapping_sub(lo) < len || s.wrapping_sub(lo) < len)
}
/// Calls `f(offset, length)` piece by piece with a scheduling point before each piece.
#[inline(never)]
unsafe fn pieces(n: usize, mut f: impl FnMut(usize, usize)) {
    let unit = if n <= 64 { 8 } else { (n / 64).next_multiple_of(32).max(32) };
    let mut at = 0;
    while at < n {
        C.pts += 1;
        shm().shared_hits += 1;
        slow(Kind::Shared);
        let k = unit.min(n - at);
        f(at, k);
        at += k;
    }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if torn(d as usize, s as usize, n) {
        pieces(n, |at, k| {
            __memcpy_chk(d.add(at), s.add(at), k, usize::MAX / 2);
        });
        return d;
    }
    __memcpy_chk(d, s, n, usize::MAX / 2)
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let apart = (d as usize).abs_diff(s as usize) >= n;
    if apart && torn(d as usize, s as usize, n) {
        pieces(n, |at, k| {
            __memcpy_chk(d.add(at), s.add(at), k, usize::MAX / 2);
        });
        return d;
    }
    __memmove_chk(d, s, n, usize::MAX / 2)
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: c_int, n: usize) -> *mut u8 {
    if torn(d as usize, 0, n) {
        pieces(n, |at, k| {
            __memset_chk(d.add(at), c, k, usize::MAX / 2);
        });
        return d;
    }
    __memset_chk(d, c, n, usize::MAX / 2)
}

// ------------------------------------------------------------------ heap

pub struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if C.active && gate() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if C.active && gate() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if C.active && gate() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[inline(never)]
unsafe fn gate() -> bool {
    C.pts += 1;
    shm().allocs += 1;
    slow(Kind::Alloc);
    if REFUSE {
        shm().refused += 1;
    }
    REFUSE
}

// ------------------------------------------------------------------ interposed libc symbols

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> c_long {
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r as c_long
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !RUNNING {
        return ret(raw_syscall6(n, a, b, c, d, e, f));
    }
    if n == libc::SYS_futex {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let was = C.active;
            C.active = false;
            let word = &*(a as *const AtomicU32);
            let r = if word.load(SeqCst) != c as u32 {
                -(libc::EAGAIN as isize)
            } else {
                shm().futex_waits += 1;
                let ts = d as *const libc::timespec;
                let dl = if ts.is_null() {
                    u64::MAX
                } else {
                    let ns = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
                    if op == libc::FUTEX_WAIT { CLOCK_NS.saturating_add(ns) } else { ns }
                };
                let me = CUR;
                TH[me].futex = a;
                TH[me].deadline = dl;
                TH[me].timed_out = false;
                C.active = was;
                leave_cpu(St::Blocked);
                C.active = false;
                TH[me].futex = 0;
                TH[me].deadline = u64::MAX;
                if TH[me].timed_out { -(libc::ETIMEDOUT as isize) } else { 0 }
            };
            C.active = was;
            return ret(r);
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            let mut woken = 0;
            for k in 1..=NT {
                let i = (CUR + k) % NT;
                if woken < c && TH[i].st == St::Blocked && TH[i].futex == a {
                    TH[i].st = St::Ready;
                    woken += 1;
                }
            }
            return woken as c_long;
        }
    }
    ret(raw_syscall6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if RUNNING {
        let was = C.active;
        C.active = was;
        C.pts += was as u64;
        yield_cyclic();
    } else {
        raw_syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if RUNNING {
        CLOCK_NS = CLOCK_NS.saturating_add((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        C.pts += C.active as u64;
        yield_cyclic();
        return 0;
    }
    ret(raw_syscall6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if RUNNING {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        CLOCK_NS = if flags & libc::TIMER_ABSTIME != 0 { CLOCK_NS.max(ns) } else { CLOCK_NS.saturating_add(ns) };
        C.pts += C.active as u64;
        yield_cyclic();
        return 0;
    }
    -raw_syscall6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if RUNNING {
        CLOCK_NS += 1;
        (*ts).tv_sec = (CLOCK_NS / 1_000_000_000) as _;
        (*ts).tv_nsec = (CLOCK_NS % 1_000_000_000) as _;
        return 0;
    }
    ret(raw_syscall6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
static mut RANDOM: u64 = 0;
/// Seed of the randomness outside the simulated threads (key-generating child processes).
pub static mut PINNED: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if RUNNING || PINNED != 0 {
        // differs from thread to thread and from run to run, repeats with the run
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        RANDOM += 1;
        let seed = crate::rng::mix(STRAT.as_ref().map_or(PINNED, |s| s.seed) ^ (CUR as u64) << 32 ^ RANDOM);
        for (i, x) in b.iter_mut().enumerate() {
            *x = (crate::rng::mix(seed ^ i as u64 / 8) >> (i % 8 * 8)) as u8;
        }
        return n as isize;
    }
    ret(raw_syscall6(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)) as isize
}
