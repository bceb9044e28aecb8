//! C08: a cluster of key-generating, proving and verifying nodes as a discrete-event simulation.
//! Network, disks, clocks and node lifecycles are simulated; circuits, native hashes and Groth16
//! are the real code. Everything that happens is a function of the plan.
use super::*;
use ark_groth16::{r1cs_to_qap::LibsnarkReduction, Groth16, PreparedVerifyingKey, Proof, ProvingKey, VerifyingKey};
use ark_relations::r1cs::ConstraintSynthesizer;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_snark::SNARK;
use rf::F;
use shim::Bls12_377;
use std::collections::{BinaryHeap, BTreeSet};
use std::rc::Rc;

type G = Groth16<Bls12_377, LibsnarkReduction>;

pub const P0: usize = 16;
pub const PROBES: [&str; 30] = [
    "messages_sent",
    "messages_lost",
    "messages_duplicated",
    "messages_delayed_or_reordered",
    "messages_corrupted",
    "messages_lost_in_partitions",
    "partitions",
    "crashes",
    "restarts",
    "crashes_during_synthesis",
    "disk_writes_lost",
    "disk_writes_torn",
    "disk_bits_flipped",
    "disk_full_errors",
    "damaged_files_detected",
    "stalls",
    "clock_skews",
    "keys_generated",
    "keys_regenerated_after_loss",
    "honest_proofs_made",
    "honest_claims_accepted",
    "damaged_copies_judged",
    "dishonest_claims_judged",
    "dishonest_claims_that_happened_to_be_true",
    "decisions_repeated_and_compared",
    "runs_with_the_shipped_keys",
    "pairing_checks",
    "tampered_assignments_that_satisfied",
    "proofs_through_the_groth16_front_door",
    "simulated_seconds",
];
fn pr(i: usize) {
    probe(P0 + i);
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct KeyJob {
    pub node: usize,
    pub prog: usize,
    pub at: u64,
    pub seed: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Cheat {
    /// an honest proof with the arguments of another statement
    Replay { vals: Vec<V> },
    /// one public input replaced
    Edit { which: u64, to: u8 },
    /// a proof made from a tampered assignment
    Tampered { t: Tamper },
    /// arbitrary bytes instead of a proof
    Garbage { kind: u8 },
    /// a proof for another program
    Foreign { key: usize },
    /// too few or too many public inputs
    Count { extra: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Job {
    pub node: usize,
    pub prog: usize,
    pub at: u64,
    pub vals: Vec<V>,
    /// synthesis in one go, inside Groth16::prove
    pub whole: bool,
    pub seed: u64,
    pub cheat: Option<Cheat>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    Drop { msg: u64 },
    Dup { msg: u64, ms: u64 },
    Delay { msg: u64, ms: u64 },
    Corrupt { msg: u64, seed: u64 },
    Crash { node: usize, at: u64, down: u64 },
    Partition { mask: u32, at: u64, ms: u64 },
    Stall { node: usize, at: u64, ms: u64 },
    Skew { node: usize, at: u64, ms: i64 },
    /// what happens to a node's n-th disk write: 0 lost, 1 torn, 2 a bit flipped, 3 disk full
    Disk { node: usize, op: u64, kind: u8, seed: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cluster {
    pub keygens: usize,
    pub provers: usize,
    pub verifiers: usize,
    pub seed: u64,
    pub latency: u64,
    /// program 0 is the project's test circuit and its keys are the ones shipped
    pub shipped: bool,
    pub keys: Vec<KeyJob>,
    pub jobs: Vec<Job>,
    pub faults: Vec<Fault>,
}
impl Cluster {
    pub fn name(&self) -> String {
        format!(
            "cluster of {} key generators, {} provers, {} verifiers: {} keys, {} claims ({} dishonest), {} faults{}",
            self.keygens, self.provers, self.verifiers, self.keys.len(), self.jobs.len(),
            self.jobs.iter().filter(|j| j.cheat.is_some()).count(), self.faults.len(),
            if self.shipped { ", shipped keys" } else { "" }
        )
    }
    pub fn kind(&self) -> u64 {
        self.jobs.iter().fold(self.keygens as u64 * 64 + self.provers as u64 * 8 + self.verifiers as u64, |a, j| {
            let k = match &j.cheat {
                None => 0,
                Some(Cheat::Replay { .. }) => 1,
                Some(Cheat::Edit { to, .. }) => 2 + *to as u64,
                Some(Cheat::Tampered { t }) => 20 + t.kind as u64 * 2 + t.repair as u64,
                Some(Cheat::Garbage { kind }) => 60 + *kind as u64,
                Some(Cheat::Foreign { .. }) => 80,
                Some(Cheat::Count { extra }) => 81 + *extra as u64,
            };
            mix(a ^ (k * 16 + j.prog as u64 * 4 + j.node as u64))
        })
    }
}

/// The keys in /repo, read before the runs are forked.
static mut SHIPPED: Option<(Vec<u8>, Vec<u8>)> = None;
pub const SHIPPED_DIR: &str = "/repo/poseidon-tests/test_vectors";
pub fn preload() {
    let f = |n: &str| std::fs::read(format!("{SHIPPED_DIR}/{n}"));
    if let (Ok(a), Ok(b)) = (f("preimage_pk.bin"), f("preimage_vk.param")) {
        unsafe { SHIPPED = Some((a, b)) }
    }
}
pub fn have_shipped() -> bool {
    unsafe { SHIPPED.is_some() }
}

struct Rand(Rng);
impl rand_core::RngCore for Rand {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.0.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl rand_core::CryptoRng for Rand {}

fn sum(b: &[u8]) -> u64 {
    b.chunks(8).fold(b.len() as u64, |a, c| {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        mix(a.rotate_left(5) ^ u64::from_le_bytes(x))
    })
}
fn sealed(b: &[u8]) -> Vec<u8> {
    let mut v = sum(b).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
fn unseal(b: &[u8]) -> Option<&[u8]> {
    if b.len() < 8 {
        return None;
    }
    let (s, b) = b.split_at(8);
    (sum(b).to_le_bytes() == s[..]).then_some(b)
}

// ------------------------------------------------------------------ truth

/// The value of every statement of a program, by the reference model.
fn eval(p: &Prog, given: &BTreeMap<usize, F>) -> Vec<Option<F>> {
    let mut v: Vec<Option<F>> = vec![];
    for (k, s) in p.iter().enumerate() {
        let get = |i: u32| -> Option<F> { v.get(i as usize).copied().flatten() };
        let x = match s {
            Stmt::Witness { .. } | Stmt::Input { .. } => given.get(&k).copied(),
            Stmt::Const { v } => Some(v.f()),
            Stmt::Lin { a, b, ca, cb } => get(*a).zip(get(*b)).map(|(x, y)| x * ca.f() + y * cb.f()),
            Stmt::Mul { a, b } => get(*a).zip(get(*b)).map(|(x, y)| x * y),
            Stmt::Hash { args, .. } | Stmt::Gadget { args, .. } => {
                let set = match s {
                    Stmt::Hash { rate, .. } => rate - 1,
                    Stmt::Gadget { set, .. } => *set,
                    _ => unreachable!(),
                };
                let xs: Option<Vec<F>> = args.iter().map(|a| get(*a)).collect();
                xs.map(|x| rf::set(set).hash(&x))
            }
            Stmt::Out { of, .. } => get(*of),
            Stmt::Pad { .. } => None,
        };
        v.push(x);
    }
    v
}
/// The statements that are public inputs, in their order.
fn publics_of(p: &Prog) -> Vec<usize> {
    // statements whose operands are missing are skipped by the synthesis
    let mut def: Vec<bool> = vec![];
    for s in p {
        let d = |i: &u32| def.get(*i as usize).copied().unwrap_or(false);
        let x = match s {
            Stmt::Witness { .. } | Stmt::Input { .. } | Stmt::Const { .. } => true,
            Stmt::Lin { a, b, .. } | Stmt::Mul { a, b } => d(a) && d(b),
            Stmt::Hash { args, .. } | Stmt::Gadget { args, .. } => args.iter().all(d),
            Stmt::Out { of, .. } => d(of),
            Stmt::Pad { .. } => false,
        };
        def.push(x);
    }
    (0..p.len()).filter(|k| def[*k] && matches!(p[*k], Stmt::Input { .. } | Stmt::Out { public: true, .. })).collect()
}
/// Whether the claimed outputs are the right ones for these arguments.
fn holds(p: &Prog, given: &BTreeMap<usize, F>) -> bool {
    let v = eval(p, given);
    p.iter().enumerate().all(|(k, s)| match s {
        Stmt::Out { .. } => match (given.get(&k), v[k]) {
            (Some(a), Some(b)) => *a == b,
            (_, None) => true,
            (None, _) => true,
        },
        _ => true,
    })
}

// ------------------------------------------------------------------ the simulation

#[derive(Clone)]
enum Msg {
    GetKey { prog: usize },
    Key { prog: usize, body: Rc<Vec<u8>> },
    GetVk { id: u64, prog: usize },
    Vk { id: u64, prog: usize, body: Rc<Vec<u8>> },
    NoVk { id: u64, ok: bool },
    Claim { job: usize, key: u64, prog: usize, publics: Rc<Vec<u8>>, proof: Rc<Vec<u8>>, intact: bool },
    Verdict { job: usize, key: u64, what: u8, ok: bool },
}
const ACCEPT: u8 = 0;
const REJECT: u8 = 1;
const NO_KEY: u8 = 2;
const DEAD_KEY: u8 = 3;

enum Ev {
    Deliver { from: usize, to: usize, msg: Msg },
    Tick { node: usize, epoch: u32 },
    Step { node: usize, epoch: u32, job: usize },
    Key { job: usize },
    Crash { node: usize, down: u64 },
    Restart { node: usize },
    Stall { node: usize, ms: u64 },
    Skew { node: usize, ms: i64 },
    Mark,
}
struct Item {
    t: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        (self.t, self.seq) == (o.t, o.seq)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.t, o.seq).cmp(&(self.t, self.seq))
    }
}

#[derive(Default)]
struct Disk {
    durable: BTreeMap<String, Vec<u8>>,
    /// what is read until a crash, where it differs
    cache: BTreeMap<String, Vec<u8>>,
    writes: u64,
}

struct Key {
    prog: usize,
    id: u64,
    pk: Rc<Vec<u8>>,
    vk: Rc<Vec<u8>>,
}

enum Stage {
    Synth(Box<Ctx>, u64),
    Ready { key: u64, publics: Rc<Vec<u8>>, proof: Rc<Vec<u8>> },
}

#[derive(Default)]
struct Node {
    up: bool,
    epoch: u32,
    stalled: u64,
    skew: i64,
    disk: Disk,
    // key generators
    keys: BTreeMap<usize, Key>,
    unsaved: BTreeMap<usize, Key>,
    // provers
    pk: BTreeMap<usize, (u64, Rc<ProvingKey<Bls12_377>>)>,
    stage: BTreeMap<usize, Stage>,
    acked: BTreeMap<usize, BTreeSet<usize>>,
    // verifiers
    vk: BTreeMap<u64, (usize, Rc<PreparedVerifyingKey<Bls12_377>>)>,
    gone: BTreeSet<u64>,
}

struct Sim<'a, 'b> {
    c: &'a Cluster,
    lib: Lib<'b>,
    now: u64,
    seq: u64,
    q: BinaryHeap<Item>,
    nodes: Vec<Node>,
    sent: u64,
    last_fault: u64,
    marks: usize,
    /// (key, publics, proof) -> decision
    decided: BTreeMap<(u64, u64, u64), (bool, u32)>,
    /// true assignments somebody had, by program
    known_true: Vec<(usize, BTreeMap<usize, F>)>,
    accepted: BTreeSet<(usize, usize)>,
    judged: BTreeSet<usize>,
    attempts: BTreeMap<usize, u64>,
    pks: BTreeMap<u64, Rc<ProvingKey<Bls12_377>>>,
    vks: BTreeMap<u64, Rc<PreparedVerifyingKey<Bls12_377>>>,
    fault_msg: BTreeMap<u64, Vec<Fault>>,
    digest: u64,
    log: bool,
}

/// A program as a circuit for Groth16.
struct Circ<'a, 'b> {
    ctx: &'a mut Ctx,
    lib: &'a mut Lib<'b>,
    viol: &'a mut Option<String>,
}
impl ConstraintSynthesizer<Fq> for Circ<'_, '_> {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fq>) -> Result<(), SynthesisError> {
        self.ctx.cs = cs;
        let n = unsafe { PROGS[self.ctx.prog].len() };
        for _ in 0..n {
            let mut v = vec![];
            if let Err(m) = step(self.ctx, &mut **self.lib, &mut v) {
                *self.viol = Some(m);
                return Err(SynthesisError::Unsatisfiable);
            }
        }
        Ok(())
    }
}

fn bytes(x: &impl CanonicalSerialize) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}
fn fbytes(x: &[Fq]) -> Vec<u8> {
    x.iter().flat_map(|x| v_of(x).0).collect()
}

/// Runs a cluster to its end. Returns the violation, if any, and a digest of all that happened.
pub fn run(c: &Cluster, lib: Lib) -> (Option<String>, u64) {
    // arkworks uses rayon: everything on this one thread
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
    let n = c.keygens + c.provers + c.verifiers;
    let mut s = Sim {
        c,
        lib,
        now: 0,
        seq: 0,
        q: BinaryHeap::new(),
        nodes: (0..n).map(|_| Node { up: true, ..Default::default() }).collect(),
        sent: 0,
        last_fault: 0,
        marks: 0,
        decided: BTreeMap::new(),
        known_true: vec![],
        accepted: BTreeSet::new(),
        judged: BTreeSet::new(),
        attempts: BTreeMap::new(),
        pks: BTreeMap::new(),
        vks: BTreeMap::new(),
        fault_msg: BTreeMap::new(),
        digest: 1,
        log: std::env::var_os("PSIM_LOG").is_some(),
    };
    if c.shipped {
        pr(25);
    }
    for f in &c.faults {
        match f {
            Fault::Drop { msg } | Fault::Dup { msg, .. } | Fault::Delay { msg, .. } | Fault::Corrupt { msg, .. } => {
                s.fault_msg.entry(*msg).or_default().push(f.clone())
            }
            Fault::Crash { node, at, down } => s.at(*at, Ev::Crash { node: node % n, down: *down }),
            Fault::Partition { at, ms, .. } => {
                pr(6);
                s.at(*at + *ms, Ev::Mark);
                s.marks += 1;
            }
            Fault::Stall { node, at, ms } => s.at(*at, Ev::Stall { node: node % n, ms: *ms }),
            Fault::Skew { node, at, ms } => s.at(*at, Ev::Skew { node: node % n, ms: *ms }),
            Fault::Disk { .. } => {}
        }
    }
    for (k, j) in c.keys.iter().enumerate() {
        s.at(j.at, Ev::Key { job: k });
    }
    for node in 0..n {
        s.at(s.c.seed.rotate_left(node as u32) % 50, Ev::Tick { node, epoch: 0 });
    }
    let v = s.go().err();
    pr(29);
    kernel::shm().probes[P0 + 29] += s.now / 1000;
    kernel::advance(s.now.saturating_mul(1_000_000));
    kernel::note(s.digest);
    (v, s.digest)
}

const TICK: u64 = 300;
const BOUND: u64 = 120_000;

impl Sim<'_, '_> {
    fn at(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Item { t: t.max(self.now), seq: self.seq, ev });
    }
    fn note(&mut self, x: u64) {
        self.digest = mix(self.digest.rotate_left(7) ^ x);
    }
    fn fault(&mut self, until: u64) {
        self.last_fault = self.last_fault.max(until);
    }
    fn say(&self, f: impl FnOnce() -> String) {
        if self.log {
            println!("{:>8} ms  {}", self.now, f());
        }
    }
    fn is_keygen(&self, n: usize) -> bool {
        n < self.c.keygens
    }
    fn is_verifier(&self, n: usize) -> bool {
        n >= self.c.keygens + self.c.provers
    }
    fn prover_of(&self, j: &Job) -> usize {
        self.c.keygens + j.node % self.c.provers
    }
    fn verifiers(&self) -> std::ops::Range<usize> {
        self.c.keygens + self.c.provers..self.nodes.len()
    }
    fn keygen_of(&self, prog: usize) -> usize {
        // the node that makes this program's keys
        self.c.keys.iter().find(|k| k.prog == prog).map_or(prog, |k| k.node) % self.c.keygens
    }
    fn prog(&self, k: usize) -> &'static Prog {
        unsafe { &PROGS[k] }
    }

    /// Every honest claim accepted by every verifier, every dishonest one judged by somebody.
    fn finished(&self) -> bool {
        self.c.jobs.iter().enumerate().all(|(k, j)| {
            if j.cheat.is_some() { self.judged.contains(&k) } else { self.verifiers().all(|v| self.accepted.contains(&(k, v))) }
        })
    }

    fn go(&mut self) -> Result<(), String> {
        let last_job = self.c.jobs.iter().map(|j| j.at).chain(self.c.keys.iter().map(|k| k.at)).max().unwrap_or(0);
        let mut events = 0u64;
        while let Some(Item { t, ev, .. }) = self.q.pop() {
            self.now = t;
            events += 1;
            if events % 8 == 0 && self.finished() {
                return Ok(());
            }
            if t > self.last_fault.max(last_job) + BOUND || events > 200_000 {
                let left: Vec<String> = self.c.jobs.iter().enumerate().filter(|(k, j)| j.cheat.is_none() && self.verifiers().any(|v| !self.accepted.contains(&(*k, v)))).map(|(k, _)| format!("{k}")).collect();
                if left.is_empty() {
                    // only dishonest claims never got through; nothing is promised to them
                    return Ok(());
                }
                return Err(format!(
                    "no-progress: {} s after the last fault (at {} ms) the honest true claims {} were still not accepted by every verifier",
                    BOUND / 1000, self.last_fault, left.join(", ")
                ));
            }
            let node = match &ev {
                Ev::Deliver { to, .. } => Some(*to),
                Ev::Tick { node, .. } | Ev::Step { node, .. } => Some(*node),
                _ => None,
            };
            if let Some(n) = node {
                if self.nodes[n].stalled > t {
                    let u = self.nodes[n].stalled;
                    self.at(u, ev);
                    continue;
                }
            }
            match ev {
                Ev::Mark => {
                    self.marks -= 1;
                    self.fault(t);
                }
                Ev::Crash { node, down } => {
                    if self.nodes[node].up {
                        pr(7);
                        self.note(0x100 + node as u64);
                        self.say(|| format!("node {node} crashes"));
                        if self.nodes[node].stage.values().any(|s| matches!(s, Stage::Synth(..))) {
                            pr(9);
                        }
                        let old = std::mem::take(&mut self.nodes[node]);
                        self.nodes[node] = Node { up: false, epoch: old.epoch + 1, skew: old.skew, disk: old.disk, ..Default::default() };
                        self.nodes[node].disk.cache.clear();
                        self.fault(t + down);
                        self.at(t + down, Ev::Restart { node });
                    }
                }
                Ev::Restart { node } => {
                    pr(8);
                    self.note(0x200 + node as u64);
                    self.say(|| format!("node {node} restarts"));
                    self.nodes[node].up = true;
                    self.fault(t);
                    self.boot(node)?;
                    let epoch = self.nodes[node].epoch;
                    self.at(t + 1, Ev::Tick { node, epoch });
                }
                Ev::Stall { node, ms } => {
                    pr(15);
                    self.note(0x300 + node as u64);
                    self.nodes[node].stalled = t + ms;
                    self.fault(t + ms);
                }
                Ev::Skew { node, ms } => {
                    pr(16);
                    self.nodes[node].skew = ms;
                    self.fault(t);
                }
                Ev::Key { job } => {
                    let k = &self.c.keys[job];
                    let node = k.node % self.c.keygens;
                    if self.nodes[node].up && self.nodes[node].stalled <= t {
                        self.generate(node, job)?;
                    } else {
                        self.at(t + TICK, Ev::Key { job });
                    }
                }
                Ev::Tick { node, epoch } => {
                    if self.nodes[node].up && self.nodes[node].epoch == epoch {
                        let d = (TICK as i64 + self.nodes[node].skew).max(20) as u64;
                        self.tick(node)?;
                        self.at(t + d, Ev::Tick { node, epoch });
                    }
                }
                Ev::Step { node, epoch, job } => {
                    if self.nodes[node].up && self.nodes[node].epoch == epoch {
                        self.step(node, job)?;
                    }
                }
                Ev::Deliver { from, to, msg } => {
                    if !self.nodes[to].up {
                        pr(1);
                    } else if self.cut(from, to) {
                        pr(5);
                    } else {
                        self.note((from * 64 + to) as u64);
                        self.receive(from, to, msg)?;
                    }
                }
            }
        }
        Ok(())
    }

    fn cut(&self, a: usize, b: usize) -> bool {
        self.c.faults.iter().any(|f| match f {
            Fault::Partition { mask, at, ms } => self.now >= *at && self.now < at + ms && (mask >> a & 1) != (mask >> b & 1),
            _ => false,
        })
    }

    fn send(&mut self, from: usize, to: usize, msg: Msg) {
        let i = self.sent;
        self.sent += 1;
        pr(0);
        let lat = 1 + mix(self.c.seed ^ i.wrapping_mul(0x9e3779b97f4a7c15)) % self.c.latency.max(1);
        let mut t = self.now + lat;
        let mut m = msg;
        if self.cut(from, to) {
            pr(5);
            return;
        }
        for f in self.fault_msg.get(&i).cloned().unwrap_or_default() {
            self.note(0x400 + i);
            match f {
                Fault::Drop { .. } => {
                    pr(1);
                    self.fault(self.now);
                    return;
                }
                Fault::Dup { ms, .. } => {
                    pr(2);
                    self.fault(t + ms);
                    let msg = m.clone();
                    self.at(t + ms, Ev::Deliver { from, to, msg });
                }
                Fault::Delay { ms, .. } => {
                    pr(3);
                    t += ms;
                    self.fault(t);
                }
                Fault::Corrupt { seed, .. } => {
                    pr(4);
                    self.fault(t);
                    m = corrupt(m, seed);
                }
                _ => {}
            }
        }
        self.at(t, Ev::Deliver { from, to, msg: m });
    }

    // -------------------------------------------------------------- disk

    fn write(&mut self, node: usize, file: &str, payload: &[u8]) -> bool {
        let op = self.nodes[node].disk.writes;
        self.nodes[node].disk.writes += 1;
        let body = sealed(payload);
        let f = self.c.faults.iter().find_map(|f| match f {
            Fault::Disk { node: n, op: o, kind, seed } if *n % self.nodes.len() == node && *o == op => Some((*kind, *seed)),
            _ => None,
        });
        let d = &mut self.nodes[node].disk;
        d.cache.insert(file.into(), body.clone());
        match f {
            None => {
                d.durable.insert(file.into(), body);
            }
            Some((0, _)) => pr(10),
            Some((1, seed)) => {
                pr(11);
                let k = Rng::new(seed).idx(body.len());
                d.durable.insert(file.into(), body[..k].to_vec());
            }
            Some((2, seed)) => {
                pr(12);
                let mut r = Rng::new(seed);
                let mut b = body;
                let k = r.idx(b.len());
                b[k] ^= 1 << r.below(8);
                d.cache.insert(file.into(), b.clone());
                d.durable.insert(file.into(), b);
            }
            Some(_) => {
                pr(13);
                d.cache.remove(file);
            }
        }
        let full = matches!(f, Some((3.., _)));
        if f.is_some() {
            self.note(0x500 + op);
            let t = self.now;
            self.fault(t);
        }
        !full
    }
    fn read(&self, node: usize, file: &str) -> Option<Vec<u8>> {
        let d = &self.nodes[node].disk;
        let b = d.cache.get(file).or_else(|| d.durable.get(file))?;
        match unseal(b) {
            Some(b) => Some(b.to_vec()),
            None => {
                pr(14);
                None
            }
        }
    }

    /// What a restarted node finds on its disk.
    fn boot(&mut self, node: usize) -> Result<(), String> {
        let files: Vec<String> = self.nodes[node].disk.durable.keys().cloned().collect();
        for f in files {
            let Some(b) = self.read(node, &f) else {
                // damaged: it has to be obtained again
                self.nodes[node].disk.durable.remove(&f);
                continue;
            };
            let (kind, n) = f.split_once('/').unwrap();
            let n: u64 = n.parse().unwrap();
            match kind {
                "key" => {
                    let job = n as usize;
                    let k = self.parse_key(self.c.keys[job].prog, &b)?;
                    self.nodes[node].keys.insert(job, k);
                }
                "pk" => {
                    let pk = self.load_pk(&b)?;
                    self.nodes[node].pk.insert(n as usize, pk);
                }
                _ => {
                    let prog = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
                    let vk = self.load_vk(n, &b[8..])?;
                    self.nodes[node].vk.insert(n, (prog, vk));
                }
            }
        }
        if self.is_keygen(node) {
            // keys that were lost are made anew
            for job in 0..self.c.keys.len() {
                if self.c.keys[job].node % self.c.keygens == node
                    && self.c.keys[job].at <= self.now
                    && self.attempts.contains_key(&job)
                    && !self.nodes[node].keys.contains_key(&job)
                {
                    pr(18);
                    self.generate(node, job)?;
                }
            }
        }
        Ok(())
    }

    fn parse_key(&mut self, prog: usize, b: &[u8]) -> Result<Key, String> {
        let (id, pk) = self.load_pk(b)?;
        let vk = if self.c.shipped && prog == 0 && Some(b) == unsafe { SHIPPED.as_ref().map(|x| &x.0[..]) } {
            unsafe { SHIPPED.as_ref().unwrap().1.clone() }
        } else {
            bytes(&pk.vk)
        };
        Ok(Key { prog, id, pk: Rc::new(b.to_vec()), vk: Rc::new(vk) })
    }
    fn load_pk(&mut self, b: &[u8]) -> Result<(u64, Rc<ProvingKey<Bls12_377>>), String> {
        let h = sum(b);
        let pk = match self.pks.get(&h) {
            Some(p) => p.clone(),
            None => {
                let p = Rc::new(ProvingKey::<Bls12_377>::deserialize_uncompressed_unchecked(b).map_err(|e| format!("bad-key: proving key: {e}"))?);
                self.pks.insert(h, p.clone());
                p
            }
        };
        Ok((h, pk))
    }
    fn load_vk(&mut self, id: u64, b: &[u8]) -> Result<Rc<PreparedVerifyingKey<Bls12_377>>, String> {
        if let Some(v) = self.vks.get(&id) {
            return Ok(v.clone());
        }
        let v = VerifyingKey::<Bls12_377>::deserialize_uncompressed_unchecked(b).map_err(|e| format!("bad-key: verifying key: {e}"))?;
        let v = Rc::new(G::process_vk(&v).map_err(|e| format!("bad-key: verifying key: {e}"))?);
        self.vks.insert(id, v.clone());
        Ok(v)
    }

    // -------------------------------------------------------------- key generators

    fn generate(&mut self, node: usize, job: usize) -> Result<(), String> {
        let j = &self.c.keys[job];
        let a = self.attempts.entry(job).or_default();
        *a += 1;
        let seed = mix(j.seed ^ *a);
        pr(17);
        self.note(0x600 + job as u64);
        let shipped = self.c.shipped && j.prog == 0;
        let body = if shipped {
            unsafe { SHIPPED.as_ref().ok_or("harness: no shipped keys")?.0.clone() }
        } else {
            let mut ctx = new_ctx(j.prog, &Mode::Setup, 1, false, &[]);
            let mut viol = None;
            let r = G::circuit_specific_setup(Circ { ctx: &mut ctx, lib: &mut self.lib, viol: &mut viol }, &mut Rand(Rng::new(seed)));
            if let Some(v) = viol {
                return Err(v);
            }
            let (pk, _) = r.map_err(|e| format!("synthesis-error: key generation failed: {e}"))?;
            bytes(&pk)
        };
        self.say(|| format!("key generator {node} makes key {job} for program {}, id {:016x}", j.prog, sum(&body)));
        let k = self.parse_key(j.prog, &body)?;
        self.nodes[node].unsaved.insert(job, k);
        self.save_keys(node);
        Ok(())
    }
    fn save_keys(&mut self, node: usize) {
        while let Some((job, k)) = self.nodes[node].unsaved.pop_first() {
            if !self.write(node, &format!("key/{job}"), &k.pk) {
                self.nodes[node].unsaved.insert(job, k);
                return;
            }
            self.nodes[node].keys.insert(job, k);
        }
    }

    // -------------------------------------------------------------- provers

    fn tick(&mut self, node: usize) -> Result<(), String> {
        if self.is_keygen(node) {
            self.save_keys(node);
            return Ok(());
        }
        if self.is_verifier(node) {
            return Ok(());
        }
        for job in 0..self.c.jobs.len() {
            let j = &self.c.jobs[job];
            if self.prover_of(j) != node || j.at > self.now {
                continue;
            }
            let told: BTreeSet<usize> = self.nodes[node].acked.get(&job).cloned().unwrap_or_default();
            match self.nodes[node].stage.get(&job) {
                Some(Stage::Synth(..)) => {}
                Some(Stage::Ready { key, publics, proof }) => {
                    let m = Msg::Claim { job, key: *key, prog: j.prog, publics: publics.clone(), proof: proof.clone(), intact: true };
                    for v in self.verifiers() {
                        if !told.contains(&v) {
                            self.send(node, v, m.clone());
                        }
                    }
                }
                None => {
                    let Some((key, _)) = self.nodes[node].pk.get(&j.prog) else {
                        let to = self.keygen_of(j.prog);
                        self.send(node, to, Msg::GetKey { prog: j.prog });
                        continue;
                    };
                    let ctx = Box::new(new_ctx(j.prog, &Mode::Prove, 1, false, &j.vals));
                    let key = *key;
                    self.say(|| format!("prover {node} starts claim {job} with key {key:016x}"));
                    self.nodes[node].stage.insert(job, Stage::Synth(ctx, key));
                    let epoch = self.nodes[node].epoch;
                    let t = self.now + 1;
                    self.at(t, Ev::Step { node, epoch, job });
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, node: usize, job: usize) -> Result<(), String> {
        let j = &self.c.jobs[job];
        let Some(Stage::Synth(mut ctx, key)) = self.nodes[node].stage.remove(&job) else { return Ok(()) };
        let pk = self.pks[&key].clone();
        let n = self.prog(j.prog).len();
        if j.whole && j.cheat.is_none() {
            pr(28);
            let mut viol = None;
            let r = G::prove(&pk, Circ { ctx: &mut ctx, lib: &mut self.lib, viol: &mut viol }, &mut Rand(Rng::new(j.seed)));
            if let Some(v) = viol {
                return Err(v);
            }
            let proof = r.map_err(|e| format!("synthesis-error: proving failed: {e}"))?;
            let z = assignment(&ctx)?;
            return self.ready(node, job, &ctx, &z.0[1..z.1], &proof, key);
        }
        if ctx.pc < n {
            let mut v = vec![];
            step(&mut ctx, &mut *self.lib, &mut v)?;
            let cost = 1 + mix(j.seed ^ ctx.pc as u64) % (1 + j.seed % 200);
            self.nodes[node].stage.insert(job, Stage::Synth(ctx, key));
            let epoch = self.nodes[node].epoch;
            let t = self.now + cost;
            self.at(t, Ev::Step { node, epoch, job });
            return Ok(());
        }
        ctx.cs.finalize();
        let m = ctx.cs.to_matrices().ok_or("synthesis-error: no matrices")?;
        let (z, n_inst) = assignment(&ctx)?;
        let mut r = Rng::new(mix(j.seed));
        let (a, b) = (V::of(&r.f()).fq(), V::of(&r.f()).fq());
        let mut z2 = z.clone();
        if let Some(Cheat::Tampered { t }) = &j.cheat {
            let abc = (0..m.a.len()).map(|i| [merge_terms(&m.a[i]), merge_terms(&m.b[i]), merge_terms(&m.c[i])]).collect::<Vec<_>>();
            let rows = m.num_constraints;
            let given = ctx.given.iter().filter_map(|v| v.get_index_unchecked(n_inst)).collect();
            let fill = ctx.fill.iter().filter_map(|v| v.get_index_unchecked(n_inst)).collect();
            let f = Fin2 { rows: rows_of(abc, rows, z.len()), z: z.clone(), n_inst, claims: vec![], given, fill };
            let outs: Vec<usize> = ctx.allocs.iter().filter(|(k, _)| matches!(self.prog(j.prog)[*k], Stmt::Out { .. })).filter_map(|(_, v)| v.get_index_unchecked(n_inst)).collect();
            let ok;
            (z2, ok) = if t.kind >= 20 {
                // a false result, everything else chosen to fit it
                let mut z = z.clone();
                let mut known = vec![false; z.len()];
                known[0] = true;
                for i in f.given.iter().chain(&f.fill) {
                    known[*i] = true;
                }
                for o in &outs {
                    z[*o] += Fq::from(1 + r.below(3));
                    known[*o] = true;
                }
                let ok = solve(&f, &mut z, &mut known, &mut r).is_some();
                (z, ok)
            } else {
                tampered(&f, None, t)
            };
            if ok && unsat(&f.rows, &z2).is_none() && z2 != z {
                pr(27);
            }
        }
        let proof = G::create_proof_with_reduction_and_matrices(&pk, a, b, &m, m.num_instance_variables, m.num_constraints, &z2)
            .map_err(|e| format!("synthesis-error: proving failed: {e}"))?;
        if z2 != z {
            // what this prover claims may still be true
            let p = self.prog(j.prog);
            let given = given_of(&ctx, &z2, n_inst);
            if holds(p, &given) {
                self.known_true.push((j.prog, given));
                pr(23);
            }
        }
        let shape = pk.vk.gamma_abc_g1.len();
        if shape != n_inst {
            return Err(format!("shape: claim {job}: {n_inst} public inputs, but the key was made for {shape}"));
        }
        self.ready(node, job, &ctx, &z2[1..n_inst], &proof, key)
    }

    /// A proof is ready: from here on it is sent, as it is or dishonestly changed.
    fn ready(&mut self, node: usize, job: usize, ctx: &Ctx, publics: &[Fq], proof: &Proof<Bls12_377>, key: u64) -> Result<(), String> {
        let j = &self.c.jobs[job];
        let mut pubs = publics.to_vec();
        let mut body = vec![];
        proof.serialize_compressed(&mut body).unwrap();
        let mut key = key;
        let mut r = Rng::new(mix(j.seed ^ 77));
        self.note(0x700 + job as u64);
        let prog = self.prog(j.prog);
        if ctx.dead {
            return Ok(());
        }
        // what the prover knows
        let (z, n_inst) = assignment(ctx)?;
        let given = given_of(ctx, &z, n_inst);
        if holds(prog, &given) {
            self.known_true.push((j.prog, given));
        } else {
            return Err(format!("wrong-value: the native hash values of claim {job} are not those of the reference model"));
        }
        match &j.cheat {
            None => pr(19),
            Some(c) => {
                let is_out: Vec<bool> = publics_of(prog).iter().map(|k| matches!(prog[*k], Stmt::Out { .. })).collect();
                match c {
                    Cheat::Replay { vals } => {
                        let slots: Vec<usize> = prog.iter().filter_map(|s| if let Stmt::Input { slot } = s { Some(*slot) } else { None }).collect();
                        for (k, slot) in is_out.iter().enumerate().filter(|(_, o)| !**o).map(|(k, _)| k).zip(slots).collect::<Vec<_>>() {
                            if k < pubs.len() && !vals.is_empty() {
                                pubs[k] = vals[slot % vals.len()].fq();
                            }
                        }
                    }
                    Cheat::Edit { which, to } if !pubs.is_empty() => {
                        let k = (*which % pubs.len() as u64) as usize;
                        pubs[k] = match to {
                            0 => pubs[k] + Fq::one(),
                            1 => Fq::zero(),
                            2 => -pubs[k],
                            3 => pubs[r.idx(pubs.len())],
                            _ => V::of(&r.f()).fq(),
                        };
                    }
                    Cheat::Garbage { kind } => match kind {
                        0 => {
                            // all points at infinity
                            body.clear();
                            Proof::<Bls12_377>::default().serialize_compressed(&mut body).unwrap();
                        }
                        1 => body.iter_mut().for_each(|b| *b = r.next() as u8),
                        2 => body.truncate(r.idx(body.len())),
                        3 => {
                            let k = r.idx(body.len());
                            body[k] ^= 1 << r.below(8);
                        }
                        4 => {
                            // A and C exchanged
                            let p = Proof::<Bls12_377> { a: proof.c, b: proof.b, c: proof.a };
                            body.clear();
                            p.serialize_compressed(&mut body).unwrap();
                        }
                        _ => {
                            let p = Proof::<Bls12_377> { a: -proof.a, b: proof.b, c: proof.c };
                            body.clear();
                            p.serialize_compressed(&mut body).unwrap();
                        }
                    },
                    Cheat::Foreign { key: k } => {
                        let g = &self.c.keys[*k % self.c.keys.len()];
                        if let Some(x) = self.nodes[g.node % self.c.keygens].keys.get(&(*k % self.c.keys.len())) {
                            key = x.id;
                            let want = publics_of(self.prog(x.prog)).len();
                            pubs.resize(want, Fq::one());
                        }
                    }
                    Cheat::Count { extra } => {
                        if *extra {
                            pubs.push(Fq::zero());
                        } else {
                            pubs.pop();
                        }
                    }
                    _ => {}
                }
            }
        }
        self.nodes[node].stage.insert(job, Stage::Ready { key, publics: Rc::new(fbytes(&pubs)), proof: Rc::new(body) });
        Ok(())
    }

    // -------------------------------------------------------------- messages

    fn receive(&mut self, from: usize, to: usize, msg: Msg) -> Result<(), String> {
        match msg {
            Msg::GetKey { prog } => {
                if let Some(k) = self.nodes[to].keys.values().filter(|k| k.prog == prog).last() {
                    let body = Rc::new(sealed(&k.pk));
                    self.send(to, from, Msg::Key { prog, body });
                }
            }
            Msg::Key { prog, body } => {
                let Some(b) = unseal(&body) else { return Ok(()) };
                if !self.nodes[to].pk.contains_key(&prog) {
                    let pk = self.load_pk(b)?;
                    self.write(to, &format!("pk/{prog}"), b);
                    self.nodes[to].pk.insert(prog, pk);
                }
            }
            Msg::GetVk { id, prog } => {
                let m = match self.nodes[to].keys.values().find(|k| k.id == id) {
                    Some(k) => Msg::Vk { id, prog: k.prog, body: Rc::new(sealed(&k.vk)) },
                    None => Msg::NoVk { id, ok: true },
                };
                let _ = prog;
                self.send(to, from, m);
            }
            Msg::Vk { id, prog, body } => {
                let Some(b) = unseal(&body) else { return Ok(()) };
                let vk = self.load_vk(id, b)?;
                let mut f = (prog as u64).to_le_bytes().to_vec();
                f.extend_from_slice(b);
                self.write(to, &format!("vk/{id}"), &f);
                self.nodes[to].gone.remove(&id);
                self.nodes[to].vk.insert(id, (prog, vk));
            }
            Msg::NoVk { id, ok } => {
                if ok && !self.nodes[to].vk.contains_key(&id) {
                    self.nodes[to].gone.insert(id);
                }
            }
            Msg::Claim { job, key, prog, publics, proof, intact } => {
                let what = match self.nodes[to].vk.get(&key).cloned() {
                    None => {
                        let g = self.keygen_of(prog);
                        // the key's maker is whoever made it
                        let g = (0..self.c.keygens).find(|k| self.nodes[*k].keys.values().any(|x| x.id == key)).unwrap_or(g);
                        self.send(to, g, Msg::GetVk { id: key, prog });
                        // asked again each time: a key may be made anew
                        if self.nodes[to].gone.contains(&key) { DEAD_KEY } else { NO_KEY }
                    }
                    Some((prog, vk)) => {
                        if self.judge(to, job, key, prog, &vk, &publics, &proof, intact)? { ACCEPT } else { REJECT }
                    }
                };
                self.note(0x800 + what as u64);
                self.send(to, from, Msg::Verdict { job, key, what, ok: true });
            }
            Msg::Verdict { job, key, what, ok } => {
                if !ok {
                    return Ok(());
                }
                let j = &self.c.jobs[job];
                match what {
                    ACCEPT => {
                        self.nodes[to].acked.entry(job).or_default().insert(from);
                    }
                    REJECT if j.cheat.is_some() => {
                        self.nodes[to].acked.entry(job).or_default().insert(from);
                    }
                    DEAD_KEY => {
                        // that key is lost: get another one and prove again
                        if self.nodes[to].pk.get(&j.prog).map_or(false, |k| k.0 == key) {
                            self.nodes[to].pk.remove(&j.prog);
                            self.nodes[to].disk.durable.remove(&format!("pk/{}", j.prog));
                            self.nodes[to].disk.cache.remove(&format!("pk/{}", j.prog));
                        }
                        if matches!(self.nodes[to].stage.get(&job), Some(Stage::Ready { key: k, .. }) if *k == key) {
                            self.nodes[to].stage.remove(&job);
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn judge(&mut self, node: usize, job: usize, key: u64, prog: usize, vk: &PreparedVerifyingKey<Bls12_377>, publics: &[u8], proof: &[u8], intact: bool) -> Result<bool, String> {
        let j = &self.c.jobs[job];
        let honest = j.cheat.is_none();
        let id = (key, sum(publics), sum(proof));
        let before = self.decided.get(&id).copied();
        let accept = match before {
            Some((a, n)) if n >= 3 => a,
            _ => {
                let f = || -> Option<bool> {
                    if publics.len() % 32 != 0 {
                        return None;
                    }
                    let xs: Option<Vec<Fq>> = publics.chunks(32).map(|c| Fq::from_bytes_checked(c.try_into().unwrap()).ok()).collect();
                    let p = Proof::<Bls12_377>::deserialize_compressed(proof).ok()?;
                    pr(26);
                    G::verify_with_processed_vk(vk, &xs?, &p).ok()
                };
                f().unwrap_or(false)
            }
        };
        self.say(|| format!("verifier {node} {} claim {job} ({})", if accept { "accepts" } else { "rejects" }, if honest { if intact { "honest" } else { "honest, damaged" } } else { "dishonest" }));
        if let Some((a, n)) = before {
            pr(24);
            if a != accept {
                return Err(format!("disagreement: verifiers decided differently about the same proof of claim {job} under the same key ({a} and {accept})"));
            }
            self.decided.insert(id, (a, n + 1));
        } else {
            self.decided.insert(id, (accept, 1));
        }
        if accept {
            // is it true?
            let p = self.prog(prog);
            let xs: Option<Vec<F>> = publics.chunks(32).map(|c| Fq::from_bytes_checked(c.try_into().ok()?).ok().map(|x| v_of(&x).f())).collect();
            let names = publics_of(p);
            let truth = match xs {
                Some(xs) if xs.len() == names.len() => {
                    let public: BTreeMap<usize, F> = names.into_iter().zip(xs).collect();
                    if p.iter().any(|s| matches!(s, Stmt::Witness { .. })) {
                        // with the private arguments of anybody who had the right to claim something
                        self.known_true.iter().filter(|(k, _)| *k == prog).any(|(_, g)| {
                            let mut g = g.clone();
                            g.extend(public.iter().map(|(k, v)| (*k, *v)));
                            holds(p, &g)
                        })
                    } else {
                        holds(p, &public)
                    }
                }
                _ => false,
            };
            if !truth {
                return Err(format!(
                    "accepted-falsehood: verifier {node} accepted claim {job} ({}) although the claimed hash values are wrong; public inputs {}",
                    match &j.cheat { None => "honest, damaged on the way".into(), Some(c) => format!("dishonest: {c:?}") },
                    publics.chunks(32).map(|c| format!("0x{}", c.iter().rev().map(|b| format!("{b:02x}")).collect::<String>())).collect::<Vec<_>>().join(", ")
                ));
            }
        }
        if honest && intact {
            if !accept {
                return Err(format!("rejected-truth: verifier {node} rejected the intact proof of the honest claim {job} (program {prog}) under the very key it was made with"));
            }
            if self.accepted.insert((job, node)) {
                pr(20);
            }
        } else if honest {
            pr(21);
        } else {
            pr(22);
            self.judged.insert(job);
        }
        Ok(accept)
    }
}

/// The value of each statement that allocated a variable.
fn given_of(ctx: &Ctx, z: &[Fq], n_inst: usize) -> BTreeMap<usize, F> {
    ctx.allocs.iter().filter_map(|(k, v)| v.get_index_unchecked(n_inst).map(|i| (*k, v_of(&z[i]).f()))).collect()
}

fn assignment(ctx: &Ctx) -> Result<(Vec<Fq>, usize), String> {
    let b = ctx.cs.borrow().ok_or("synthesis-error: no constraint system")?;
    let mut z = b.instance_assignment.clone();
    let n = z.len();
    z.extend_from_slice(&b.witness_assignment);
    Ok((z, n))
}

fn corrupt(m: Msg, seed: u64) -> Msg {
    let mut r = Rng::new(seed);
    let mut flip = |b: &Rc<Vec<u8>>| {
        let mut v = (**b).clone();
        if !v.is_empty() {
            match r.below(6) {
                0 => {
                    let k = r.idx(v.len());
                    v.truncate(k);
                }
                1 => {
                    let k = r.idx(v.len());
                    v[k..].iter_mut().for_each(|b| *b = 0);
                }
                _ => {
                    for _ in 0..r.range(1, 3) {
                        let k = r.idx(v.len());
                        v[k] ^= 1 << r.below(8);
                    }
                }
            }
        }
        Rc::new(v)
    };
    match m {
        Msg::Key { prog, body } => Msg::Key { prog, body: flip(&body) },
        Msg::Vk { id, prog, body } => Msg::Vk { id, prog, body: flip(&body) },
        Msg::Claim { job, key, prog, publics, proof, .. } => {
            let (a, b) = if seed & 1 == 0 { (flip(&publics), proof.clone()) } else { (publics.clone(), flip(&proof)) };
            let intact = a == publics && b == proof;
            Msg::Claim { job, key, prog, publics: a, proof: b, intact }
        }
        Msg::Verdict { job, key, what, .. } => Msg::Verdict { job, key, what, ok: false },
        Msg::NoVk { id, .. } => Msg::NoVk { id, ok: false },
        m => m,
    }
}

// ------------------------------------------------------------------ generation

fn cost(p: &Prog) -> u64 {
    p.iter()
        .map(|s| {
            let set = match s {
                Stmt::Hash { rate, .. } => rate - 1,
                Stmt::Gadget { set, .. } => *set,
                _ => return 1,
            };
            let r = rf::set(set);
            if r.alpha < 0 {
                return 1 << 40;
            }
            let a = r.alpha as u64;
            (64 - a.leading_zeros() as u64 + a.count_ones() as u64) * (r.r_f * r.t + r.r_p) as u64
        })
        .sum()
}

/// The circuit of the project's proof tests.
fn preimage_prog() -> Prog {
    let d = Fq::from_montgomery_limbs([15545862963729521748, 8301038308012579564, 6940338389606830037, 431207966161902270]);
    let mut p: Prog = (0..7).map(|i| Stmt::Witness { slot: i }).collect();
    p.push(Stmt::Const { v: v_of(&d) });
    for r in 1..=7usize {
        let mut args = vec![7u32];
        args.extend(0..r as u32);
        p.push(Stmt::Hash { rate: r, args });
        let of = p.len() as u32 - 1;
        p.push(Stmt::Out { of, public: true });
    }
    p
}

fn gen_cprog(g: &mut Gen, limit: u64) -> Prog {
    loop {
        let h = g.r.range(1, 2) as usize;
        let rm = *g.r.pick(&[1usize, 1, 2, 2, 3, 4, 7]);
        let mut p = super::gen_prog(g, h, 6, rm, 12);
        if g.r.chance(1, 2) {
            // arguments are public
            for s in p.iter_mut() {
                if let Stmt::Witness { slot } = s {
                    *s = Stmt::Input { slot: *slot };
                }
            }
        }
        let last = p.iter().rposition(|s| matches!(s, Stmt::Hash { .. } | Stmt::Gadget { .. })).unwrap() as u32;
        if !p.iter().any(|s| matches!(s, Stmt::Out { of, public: true } if *of == last)) {
            p.push(Stmt::Out { of: last, public: true });
        }
        if cost(&p) <= limit {
            return p;
        }
    }
}

pub fn gen(g: &mut Gen, thorough: bool) -> Plan {
    let mut p = plan::empty("C08", 0);
    let shipped = have_shipped() && g.r.chance(1, if thorough { 12 } else { 25 });
    if shipped {
        p.progs.push(preimage_prog());
    } else {
        let np = g.r.range(1, 2) as usize;
        for _ in 0..np {
            let limit = *g.r.pick(&[100u64, 340, 400, 750, if thorough { 3000 } else { 750 }]);
            let q = gen_cprog(g, limit);
            p.progs.push(q);
        }
    }
    let np = p.progs.len();
    let keygens = g.r.range(1, 2) as usize;
    let provers = g.r.range(1, 3) as usize;
    let verifiers = g.r.range(1, 3) as usize;
    let n = keygens + provers + verifiers;
    let span = *g.r.pick(&[500u64, 2_000, 10_000]);
    let mut keys = vec![];
    for prog in 0..np {
        let node = g.r.idx(keygens);
        let many = if shipped { 1 } else { g.r.range(1, 2) };
        for k in 0..many {
            keys.push(KeyJob { node, prog, at: if k == 0 { g.r.below(100) } else { g.r.below(span) }, seed: g.r.next() });
        }
    }
    let nj = if shipped { g.r.range(1, 2) } else { g.r.range(1, 6) };
    let cheaters = *g.r.pick(&[0u64, 1, 1, 2]);
    let mut jobs = vec![];
    for _ in 0..nj {
        let prog = g.r.idx(np);
        let vals = super::gen_vals(g, &p.progs[prog], 7);
        let cheat = if g.r.below(3) < cheaters {
            Some(match g.r.weighted(&[2, 3, 6, 2, 1, 1]) {
                0 => Cheat::Replay { vals: super::gen_vals(g, &p.progs[prog], 7) },
                1 => Cheat::Edit { which: g.r.next(), to: g.r.below(5) as u8 },
                2 => {
                    let kind = if g.r.chance(1, 2) { 20 } else { *g.r.pick(&[0u8, 1, 2, 3, 4, 5, 8, 9, 11, 12, 13, 14]) };
                    Cheat::Tampered { t: Tamper { kind, n: g.r.range(1, 4) as u8, repair: g.r.chance(2, 3), seed: g.r.next() } }
                }
                3 => Cheat::Garbage { kind: g.r.below(6) as u8 },
                4 => Cheat::Foreign { key: g.r.idx(keys.len()) },
                _ => Cheat::Count { extra: g.r.chance(1, 2) },
            })
        } else {
            None
        };
        jobs.push(Job { node: g.r.idx(provers), prog, at: g.r.below(span), vals, whole: g.r.chance(1, 3), seed: g.r.next(), cheat });
    }
    // which kinds of fault this run has
    let on: Vec<u64> = (0..9).map(|_| if g.r.chance(1, 2) { g.r.range(1, 6) } else { 0 }).collect();
    let mut faults = vec![];
    if on.iter().any(|x| *x > 0) && g.r.chance(9, 10) {
        let msgs = *g.r.pick(&[20u64, 60, 200]);
        let reach = span + 3_000;
        for _ in 0..g.r.log(0, 6) {
            let msg = g.r.below(msgs);
            let node = g.r.idx(n);
            let at = g.r.below(reach);
            faults.push(match g.r.weighted(&on) {
                0 => Fault::Drop { msg },
                1 => Fault::Dup { msg, ms: g.r.log(0, 14) },
                2 => Fault::Delay { msg, ms: g.r.log(0, 15) },
                3 => Fault::Corrupt { msg, seed: g.r.next() },
                4 => Fault::Crash { node, at, down: g.r.log(0, 13) },
                5 => Fault::Partition { mask: g.r.next() as u32, at, ms: g.r.log(4, 15) },
                6 => Fault::Stall { node, at, ms: g.r.log(4, 14) },
                7 => Fault::Skew { node, at, ms: g.r.range(0, 4000) as i64 - 1000 },
                _ => Fault::Disk { node, op: g.r.below(4), kind: g.r.below(4) as u8, seed: g.r.next() },
            });
        }
        if shipped {
            faults.truncate(12);
        }
    }
    let c = Cluster { keygens, provers, verifiers, seed: g.r.next(), latency: *g.r.pick(&[5u64, 50, 400]), shipped, keys, jobs, faults };
    let op = Op::R(ROp::Cluster(Box::new(c)));
    let rec = g.rec(op);
    p.threads.push(vec![rec]);
    p
}
