//! Operations of the simulated callers, their execution against the real library, and what the
//! reference model expects of them.
#![allow(static_mut_refs)]

use crate::kernel;
use crate::reference::{self as rf, f_bytes, f_from, F, M};
use ark_ff::{One, Zero};
use poseidon_shim as shim;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use shim::{Fq, Mat, MatOp, ParamSet, Status};

/// A field element, written as little-endian hex without trailing zeros.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct V(pub [u8; 32]);
impl V {
    pub fn f(&self) -> F {
        f_from(&self.0)
    }
    pub fn of(x: &F) -> V {
        V(f_bytes(x))
    }
    pub fn fq(&self) -> Fq {
        Fq::from_le_bytes_mod_order(&self.0)
    }
    pub fn hex(&self) -> String {
        let n = self.0.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        self.0[..n].iter().map(|b| format!("{b:02x}")).collect()
    }
    pub fn small(x: u64) -> V {
        V::of(&F::from(x))
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.hex())
    }
}
impl<'de> Deserialize<'de> for V {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        let s = String::deserialize(d)?;
        let mut v = [0u8; 32];
        for i in 0..s.len() / 2 {
            v[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom)?;
        }
        Ok(V(v))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// hash_{rate}
    Hash { rate: usize, d: V, x: Vec<V> },
    /// the same call `n` times in a row, as one operation
    HashMany { rate: usize, d: V, x: Vec<V>, n: u32 },
    /// a fresh instance over a shared parameter set, used once
    Fresh {
        set: usize,
        opt: bool,
        x: Vec<V>,
        /// on a copy of the parameter set, where copies of others were before
        #[serde(default)]
        moved: bool,
    },
    /// instances that live in slots and are reused (any thread, one at a time)
    New { slot: usize, set: usize },
    Call { slot: usize, opt: bool, x: Vec<V> },
    CallMany { slot: usize, opt: bool, x: Vec<V>, n: u32 },
    Words { slot: usize },
    /// reads of a shared parameter set
    Field { set: usize, f: usize, round: usize },
    Nums { set: usize },
    CloneSet { set: usize },
    /// matrix operation on a matrix all threads share
    Mat { m: usize, op: usize, rhs: usize, s: V, i: usize, j: usize },
    /// the same one `n` times in a row, as one operation
    MatMany { m: usize, op: usize, rhs: usize, s: V, i: usize, j: usize, n: u32 },
    /// private matrices
    LNew { slot: usize, shape: usize, e: Vec<V> },
    LCopy { slot: usize, from: usize },
    LSet { slot: usize, i: usize, j: usize, v: V },
    LMat { slot: usize, op: usize, rhs: usize, s: V, i: usize, j: usize },
    New2 { a: V, b: V, c: V, d: V },
    #[cfg(feature = "full")]
    R(crate::r1cs::ROp),
}
impl Op {
    pub fn name(&self) -> String {
        match self {
            Op::Hash { rate, .. } => format!("hash_{rate}"),
            Op::HashMany { rate, n, .. } => format!("hash_{rate} x{n}"),
            Op::Fresh { set, opt, moved, .. } => format!("fresh instance({}{}) {}", if *moved { "copy of " } else { "" }, rf::set(*set).name, if *opt { "optimized" } else { "unoptimized" }),
            Op::New { .. } => "Instance::new".into(),
            Op::Call { opt, .. } => if *opt { "n_to_1_fixed_hash" } else { "unoptimized_n_to_1_fixed_hash" }.into(),
            Op::CallMany { opt, n, .. } => format!("{} x{n}", if *opt { "n_to_1_fixed_hash" } else { "unoptimized_n_to_1_fixed_hash" }),
            Op::Words { .. } => "output_words".into(),
            Op::Field { set, f, .. } => format!("read {}.{}", rf::set(*set).name, if *f == 13 { "w_hat_collection" } else { shim::FIELDS[*f] }),
            Op::Nums { set } => format!("read {}.rounds/alpha/dims", rf::set(*set).name),
            Op::CloneSet { set } => format!("clone {}", rf::set(*set).name),
            Op::Mat { op, .. } => format!("shared matrix {:?}", shim::MATOPS[*op]),
            Op::MatMany { op, n, .. } => format!("shared matrix {:?} x{n}", shim::MATOPS[*op]),
            Op::LNew { shape, .. } => format!("new {:?}", shim::SHAPES[*shape]),
            Op::LCopy { .. } => "clone matrix".into(),
            Op::LSet { .. } => "set_element".into(),
            Op::LMat { op, .. } => format!("private matrix {:?}", shim::MATOPS[*op]),
            Op::New2 { .. } => "new_2x2".into(),
            #[cfg(feature = "full")]
            Op::R(r) => r.name(),
        }
    }
    pub fn kind(&self) -> u64 {
        match self {
            Op::Hash { rate, .. } => *rate as u64,
            Op::HashMany { rate, .. } => 10 + *rate as u64,
            Op::Fresh { set, opt, moved, .. } => 100 + *set as u64 * 2 + *opt as u64 + *moved as u64 * 1_000_000,
            Op::New { set, .. } => 300 + *set as u64,
            Op::Call { opt, .. } => 30 + *opt as u64,
            Op::CallMany { opt, .. } => 33 + *opt as u64,
            Op::Words { .. } => 32,
            Op::Field { set, f, .. } => 1000 + *set as u64 * 16 + *f as u64,
            Op::Nums { set } => 400 + *set as u64,
            Op::CloneSet { set } => 500 + *set as u64,
            Op::Mat { op, .. } => 40 + *op as u64,
            Op::MatMany { op, .. } => 700 + *op as u64,
            Op::LNew { shape, .. } => 600 + *shape as u64,
            Op::LCopy { .. } => 37,
            Op::LSet { .. } => 38,
            Op::LMat { op, .. } => 70 + *op as u64,
            Op::New2 { .. } => 39,
            #[cfg(feature = "full")]
            Op::R(r) => 2000 + r.kind(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OpRec {
    pub oid: u32,
    pub op: Op,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RStat {
    NotRun,
    Started,
    Done,
    NoInverse,
    OtherError,
    Panicked,
    Skipped,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub st: RStat,
    pub seq: u32,
    pub thread: usize,
    pub pts: u64,
    pub vals: Vec<V>,
    pub note: String,
    #[cfg(feature = "full")]
    pub r: Option<Box<crate::r1cs::RRes>>,
}

pub const SLOTS: usize = 40;
pub const LSLOTS: usize = 8;

pub struct Slot {
    pub set: usize,
    pub busy: bool,
    pub inst: Option<Box<dyn shim::Inst>>,
}

/// Everything the caller threads of a run share.
pub struct World {
    pub ops: Vec<Option<Op>>,
    pub res: Vec<Res>,
    pub seq: u32,
    pub sets: Vec<Option<&'static dyn ParamSet>>,
    pub slots: Vec<Slot>,
    pub pool: Vec<Box<dyn Mat>>,
    pub local: Vec<Vec<Option<Box<dyn Mat>>>>,
}
static mut WORLD: Option<World> = None;
pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

pub fn raw_of(r: &rf::RefSet) -> shim::Raw {
    let q = |xs: &[F]| -> Vec<Fq> { xs.iter().map(|x| V::of(x).fq()).collect() };
    let qm = |m: &M| q(&rf::flat(m));
    shim::Raw {
        m: r.m,
        t: r.t,
        r_f: r.r_f,
        r_p: r.r_p,
        alpha: r.alpha,
        mds: qm(&r.mds),
        arc: qm(&r.arc),
        opt_arc: qm(&r.opt_arc),
        m_hat: qm(&r.m_hat),
        v: q(&r.v),
        w: q(&r.w),
        m_prime: qm(&r.m_prime),
        m_doubleprime: qm(&r.m_doubleprime),
        m_inverse: qm(&r.m_inverse),
        m_hat_inverse: qm(&r.m_hat_inverse),
        m_00: V::of(&r.m_00).fq(),
        m_i: qm(&r.m_i),
        v_coll: r.v_coll.iter().map(|v| q(v)).collect(),
        w_hat_coll: r.w_hat_coll.iter().map(|v| q(v)).collect(),
    }
}

fn make_set(id: usize) -> &'static dyn ParamSet {
    if id < rf::N_SHIPPED {
        shim::shipped(id + 1)
    } else {
        shim::custom((id - rf::N_SHIPPED) / rf::VARIANTS, &raw_of(rf::set(id)))
    }
}

/// Sets the process up for a plan: shared parameter sets and matrices, empty slots.
pub fn setup(all: &[&OpRec], pool: &[(usize, Vec<V>)], threads: usize, also: &[usize]) {
    let n = all.iter().map(|o| o.oid as usize + 1).max().unwrap_or(0);
    let mut ops = vec![None; n];
    let mut sets: Vec<Option<&'static dyn ParamSet>> = (0..rf::n_sets()).map(|_| None).collect();
    for o in all {
        ops[o.oid as usize] = Some(o.op.clone());
        let need = match &o.op {
            Op::Fresh { set, .. } | Op::New { set, .. } | Op::Field { set, .. } | Op::Nums { set } | Op::CloneSet { set } => Some(*set),
            _ => None,
        };
        if let Some(s) = need {
            if sets[s].is_none() {
                sets[s] = Some(make_set(s));
            }
        }
    }
    for s in also {
        if sets[*s].is_none() {
            sets[*s] = Some(make_set(*s));
        }
    }
    let res = (0..n)
        .map(|_| Res {
            st: RStat::NotRun,
            seq: 0,
            thread: 0,
            pts: 0,
            vals: Vec::new(),
            note: String::new(),
            #[cfg(feature = "full")]
            r: None,
        })
        .collect();
    let pool = pool.iter().map(|(s, e)| shim::make(*s, &e.iter().map(|v| v.fq()).collect::<Vec<_>>())).collect();
    unsafe {
        WORLD = Some(World {
            ops,
            res,
            seq: 0,
            sets,
            slots: (0..SLOTS).map(|_| Slot { set: 0, busy: false, inst: None }).collect(),
            pool,
            local: (0..threads).map(|_| (0..LSLOTS).map(|_| None).collect()).collect(),
        });
    }
}

pub fn set_of(id: usize) -> &'static dyn ParamSet {
    world().sets[id].expect("set was set up")
}

pub fn v_of(x: &Fq) -> V {
    V(x.to_bytes())
}

/// What the operation may cost, in 64ths of the most expensive one's bound.
fn reps_of(op: &Op) -> u32 {
    match op {
        Op::HashMany { n, .. } | Op::CallMany { n, .. } => *n,
        Op::Mat { .. } | Op::LMat { .. } => 64,
        Op::MatMany { n, .. } => 64 * *n,
        _ => 1,
    }
}

const OUT: usize = 700;
/// Room for a copy of any parameter set, in 16 bytes.
const PLACE: usize = 1 << 13;
static mut PLACES: Vec<Vec<u128>> = Vec::new();

/// Executes one operation on the current simulated thread.
pub fn exec(oid: u32) {
    let w = world();
    let Some(op) = &w.ops[oid as usize] else { return };
    let res = &mut w.res[oid as usize];
    res.st = RStat::Started;
    res.thread = kernel::current();
    let mut out = [Fq::default(); OUT];
    let mut st = RStat::Done;
    let mut n = 0usize;
    let panicked;
    // Runs `f` as library code: scheduling points and faults apply exactly inside it.
    macro_rules! lib {
        ($f:expr) => {{
            kernel::enter(oid, reps_of(op));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $f));
            w.res[oid as usize].pts = kernel::leave();
            match r {
                Ok(v) => {
                    panicked = false;
                    Some(v)
                }
                Err(e) => {
                    panicked = true;
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    w.res[oid as usize].note = m;
                    None
                }
            }
        }};
    }
    macro_rules! none {
        () => {{
            panicked = false;
        }};
    }
    fn qs(x: &[V], buf: &mut [Fq; 16]) -> usize {
        for (b, v) in buf.iter_mut().zip(x) {
            *b = v.fq();
        }
        x.len()
    }
    let mut xb = [Fq::default(); 16];
    match op {
        Op::Hash { rate, d, x } => {
            let (d, k) = (d.fq(), qs(x, &mut xb));
            let xs = xb;
            if let Some(v) = lib!(shim::hash(*rate, &d, &xs[..k])) {
                out[0] = v;
                n = 1;
            }
        }
        Op::HashMany { rate, d, x, n: reps } => {
            let (d, k) = (d.fq(), qs(x, &mut xb));
            let xs = xb;
            let o = &mut out;
            if let Some(r) = lib!({
                let first = shim::hash(*rate, &d, &xs[..k]);
                let mut bad = 0u32;
                o[0] = first;
                for i in 1..*reps {
                    let v = shim::hash(*rate, &d, &xs[..k]);
                    if v != first {
                        o[0] = v;
                        bad = i;
                        break;
                    }
                }
                bad
            }) {
                n = 1;
                if r > 0 {
                    w.res[oid as usize].note = format!("call {r} of the row differs from the first");
                }
            }
        }
        Op::Fresh { set, opt, x, moved } => {
            let s = set_of(*set);
            let k = qs(x, &mut xb);
            let xs = xb;
            let o = &mut out;
            // places are handed out again, also to other threads; one whose user is killed is lost
            let mut place = moved.then(|| unsafe { (*std::ptr::addr_of_mut!(PLACES)).pop() }.unwrap_or_else(|| vec![0; PLACE]));
            if let Some(v) = lib!(match &mut place {
                Some(p) => s.fresh_at(p, *opt, &xs[..k], &mut o[1..]),
                None => s.fresh(*opt, &xs[..k], &mut o[1..]),
            }) {
                out[0] = v;
                n = 1 + k;
            }
            if let Some(p) = place {
                unsafe { (*std::ptr::addr_of_mut!(PLACES)).push(p) };
            }
        }
        Op::New { slot, set } => {
            none!();
            let s = set_of(*set);
            if kernel::wait_until(|| !world().slots[*slot].busy) {
                let i = s.instance();
                let sl = &mut world().slots[*slot];
                sl.set = *set;
                sl.inst = Some(i);
            } else {
                st = RStat::Skipped;
            }
        }
        Op::Call { slot, opt, x } => {
            let k = qs(x, &mut xb);
            let xs = xb;
            let free = kernel::wait_until(|| !world().slots[*slot].busy);
            if free && world().slots[*slot].inst.is_some() && set_of(world().slots[*slot].set).t() == k {
                world().slots[*slot].busy = true;
                let inst = world().slots[*slot].inst.as_mut().unwrap();
                let r = lib!(if *opt { inst.opt(&xs[..k]) } else { inst.unopt(&xs[..k]) });
                world().slots[*slot].busy = false;
                if let Some(v) = r {
                    out[0] = v;
                    n = 1;
                }
            } else {
                none!();
                st = RStat::Skipped;
            }
        }
        Op::CallMany { slot, opt, x, n: reps } => {
            let k = qs(x, &mut xb);
            let xs = xb;
            let free = kernel::wait_until(|| !world().slots[*slot].busy);
            if free && world().slots[*slot].inst.is_some() && set_of(world().slots[*slot].set).t() == k {
                world().slots[*slot].busy = true;
                let inst = world().slots[*slot].inst.as_mut().unwrap();
                let o = &mut out;
                let r = lib!({
                    let mut bad = 0u32;
                    let mut first = [Fq::default(); 17];
                    for i in 0..*reps {
                        o[0] = if *opt { inst.opt(&xs[..k]) } else { inst.unopt(&xs[..k]) };
                        inst.words(&mut o[1..]);
                        if i == 0 {
                            first[..k + 1].copy_from_slice(&o[..k + 1]);
                        } else if o[..k + 1] != first[..k + 1] {
                            bad = i;
                            break;
                        }
                    }
                    bad
                });
                world().slots[*slot].busy = false;
                if let Some(b) = r {
                    n = 1 + k;
                    if b > 0 {
                        w.res[oid as usize].note = format!("call {b} of the row differs from the first");
                    }
                }
            } else {
                none!();
                st = RStat::Skipped;
            }
        }
        Op::Words { slot } => {
            let free = kernel::wait_until(|| !world().slots[*slot].busy);
            if free && world().slots[*slot].inst.is_some() {
                world().slots[*slot].busy = true;
                let t = set_of(world().slots[*slot].set).t();
                let inst = world().slots[*slot].inst.as_ref().unwrap();
                let o = &mut out;
                let r = lib!(inst.words(&mut o[..]));
                world().slots[*slot].busy = false;
                if r.is_some() {
                    n = t;
                }
            } else {
                none!();
                st = RStat::Skipped;
            }
        }
        Op::Field { set, f, round } => {
            let s = set_of(*set);
            let o = &mut out;
            if let Some(k) = lib!(s.field(*f, *round, &mut o[..])) {
                n = k;
            }
        }
        Op::Nums { set } => {
            let s = set_of(*set);
            if let Some(k) = lib!(s.nums()) {
                w.res[oid as usize].note = format!("{k:?}");
            }
        }
        Op::CloneSet { set } => {
            let s = set_of(*set);
            if let Some(k) = lib!(s.clone_same()) {
                out[0] = Fq::from(k as u64);
                n = 1;
            }
        }
        Op::Mat { m, op, rhs, s, i, j } => {
            let (a, b) = (&w.pool[*m], &w.pool[*rhs]);
            let sv = s.fq();
            let o = &mut out;
            let r = lib!(a.op(shim::MATOPS[*op], b.as_any(), sv, *i, *j, &mut o[..]));
            if let Some(r) = r {
                (st, n) = stat(r);
            }
        }
        Op::MatMany { m, op, rhs, s, i, j, n: reps } => {
            let (a, b) = (&w.pool[*m], &w.pool[*rhs]);
            let sv = s.fq();
            let o = &mut out;
            let r = lib!({
                let op = shim::MATOPS[*op];
                let mut r = a.op(op, b.as_any(), sv, *i, *j, &mut o[..]);
                let mut bad = 0;
                if let Status::Ok(k) = r {
                    let (first, next) = o.split_at_mut(OUT / 2);
                    for rep in 1..*reps {
                        let q = a.op(op, b.as_any(), sv, *i, *j, next);
                        let same = matches!(q, Status::Ok(l) if l == k) && first[..k] == next[..k];
                        if !same {
                            bad = rep;
                            if let Status::Ok(l) = q {
                                first[..l].copy_from_slice(&next[..l]);
                            }
                            r = q;
                            break;
                        }
                    }
                } else {
                    // an error: as often
                    for _ in 1..*reps {
                        let q = a.op(op, b.as_any(), sv, *i, *j, &mut o[..]);
                        if let Status::Ok(_) = q {
                            r = q;
                            break;
                        }
                    }
                }
                (r, bad)
            });
            if let Some((r, bad)) = r {
                (st, n) = stat(r);
                if bad > 0 {
                    w.res[oid as usize].note = format!("call {bad} of the row differs from the first");
                }
            }
        }
        Op::LNew { slot, shape, e } => {
            let q: Vec<Fq> = e.iter().map(|v| v.fq()).collect();
            none!();
            w.local[kernel::current()][*slot] = Some(shim::make(*shape, &q));
        }
        Op::LCopy { slot, from } => {
            none!();
            let l = &mut w.local[kernel::current()];
            match l[*from].as_ref().map(|m| m.copy()) {
                Some(c) => l[*slot] = Some(c),
                None => st = RStat::Skipped,
            }
        }
        Op::LSet { slot, i, j, v } => {
            let q = v.fq();
            match w.local[kernel::current()][*slot].as_mut() {
                Some(m) => {
                    lib!(m.set(*i, *j, q));
                }
                None => {
                    none!();
                    st = RStat::Skipped;
                }
            }
        }
        Op::LMat { slot, op, rhs, s, i, j } => {
            let sv = s.fq();
            let l = &w.local[kernel::current()];
            match (&l[*slot], &l[*rhs]) {
                (Some(a), Some(b)) => {
                    let o = &mut out;
                    let r = lib!(a.op(shim::MATOPS[*op], b.as_any(), sv, *i, *j, &mut o[..]));
                    if let Some(r) = r {
                        (st, n) = stat(r);
                    }
                }
                _ => {
                    none!();
                    st = RStat::Skipped;
                }
            }
        }
        Op::New2 { a, b, c, d } => {
            let (a, b, c, d) = (a.fq(), b.fq(), c.fq(), d.fq());
            let o = &mut out;
            if lib!(shim::new_2x2(a, b, c, d, &mut o[..])).is_some() {
                n = 4;
            }
        }
        #[cfg(feature = "full")]
        Op::R(r) => {
            let mut rr = None;
            let (s, v) = crate::r1cs::exec(r, &mut rr, &mut |f| {
                kernel::enter(oid, 64);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let p = kernel::leave();
                let res = &mut world().res[oid as usize];
                res.pts += p;
                if let Err(e) = &r {
                    kernel::shm().panics += 1;
                    res.note = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                }
                r.is_ok()
            });
            panicked = false;
            st = s;
            for (o, v) in out.iter_mut().zip(v.iter()) {
                *o = *v;
            }
            n = v.len();
            w.res[oid as usize].r = rr;
        }
    }
    if panicked {
        st = RStat::Panicked;
        kernel::shm().panics += 1;
    }
    let w = world();
    w.seq += 1;
    let r = &mut w.res[oid as usize];
    r.seq = w.seq;
    r.st = st;
    r.vals = out[..n].iter().map(v_of).collect();
}

fn stat(s: Status) -> (RStat, usize) {
    match s {
        Status::Ok(n) => (RStat::Done, n),
        Status::NoInverse => (RStat::NoInverse, 0),
        Status::OtherError => (RStat::OtherError, 0),
        Status::Absent => (RStat::Skipped, 0),
    }
}

// ------------------------------------------------------------------ expectations

#[derive(Debug, Clone)]
pub enum Exp {
    /// exactly these values
    Vals(Vec<F>),
    /// these values, or a panic (division by zero in an inverse S-box has no agreed meaning)
    ValsOrPanic(Vec<F>),
    NoInverse,
    /// no inverse exists and the operation has no way to say so but a panic
    Any,
    Note(String),
    Skip,
}

pub fn hash_expect(rate: usize, d: &V, x: &[V]) -> F {
    let mut s = vec![d.f()];
    s.extend(x.iter().map(|v| v.f()));
    rf::set(rate - 1).hash(&s)
}

pub fn nums_of(r: &rf::RefSet) -> String {
    let n = shim::Nums {
        m: r.m,
        r_f: r.r_f,
        r_p: r.r_p,
        total: r.r_f + r.r_p,
        alpha: r.alpha,
        alpha_bytes: (r.alpha as i32).to_le_bytes(),
        alpha_f64: r.alpha as f64,
        arc_dims: (r.r_f + r.r_p, r.t),
        mds_dims: (r.t, r.t),
    };
    format!("{n:?}")
}

/// What matrix operation `op` on `a` (kind, values) must give.
pub fn mat_expect(kind: &str, a: &M, op: MatOp, b: &M, s: F, i: usize, j: usize) -> Exp {
    use MatOp::*;
    let square = kind == "square";
    let n = a.len();
    let c = a[0].len();
    let vals = |m: &M| Exp::Vals(rf::flat(m));
    let set = || {
        let mut x = a.clone();
        x[i][j] = s;
        x
    };
    match op {
        Elements | IterRows | Rebuild => vals(a),
        Get => Exp::Vals(vec![a[i][j]]),
        Transpose => vals(&rf::transpose(a)),
        Hadamard => Exp::Vals(rf::flat(a).iter().zip(rf::flat(b)).map(|(x, y)| *x * y).collect()),
        Dims => Exp::Vals(vec![F::from(n as u64), F::from(c as u64)]),
        SetCopy => vals(&set()),
        CloneEq => Exp::Vals(vec![F::one()]),
        Det if square => Exp::Vals(vec![rf::det(a)]),
        Minors if square => vals(&rf::minors(a)),
        Cofactors if square => Exp::Vals((0..n * n).map(|k| if (k / n + k % n) % 2 == 0 { F::one() } else { -F::one() }).collect()),
        Inverse if square => match rf::inverse(a) {
            Some(m) => vals(&m),
            None => Exp::NoInverse,
        },
        Inverse if kind == "mds" => match rf::inverse(a) {
            Some(m) => vals(&m),
            None => Exp::Any,
        },
        Mul | MulGeneral if square => vals(&rf::mul(a, b)),
        Mul | MulGeneral if kind == "rect" => vals(&rf::mul(a, &rf::transpose(b))),
        MulWide if kind == "rect" => {
            let (f, c) = (rf::flat(b), a[0].len());
            let wide: M = (0..c).map(|i| (0..5).map(|j| f[(i * 5 + j) % f.len()] + F::from(((i * 5 + j) / f.len()) as u64)).collect()).collect();
            vals(&rf::mul(a, &wide))
        }
        Scalar if square || kind == "rect" => Exp::Vals(rf::flat(a).iter().map(|x| *x * s).collect()),
        Row if square || kind == "rect" => Exp::Vals(a[i].clone()),
        Identity if square => vals(&rf::ident(n)),
        V if kind == "mds" => Exp::Vals(a[0][1..].to_vec()),
        W if kind == "mds" => Exp::Vals(a[1..].iter().map(|r| r[0]).collect()),
        Hat if kind == "mds" => vals(&rf::without(a, 0, 0)),
        Inner if kind == "arc" => vals(a),
        _ => Exp::Skip,
    }
}

/// Index of the first wrong value, or a length mismatch.
fn differ(got: &[V], want: &[F]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} values instead of {}", got.len(), want.len()));
    }
    got.iter().zip(want).position(|(g, w)| g.f() != *w || V::of(w) != *g).map(|i| {
        format!("value {i} is 0x{} instead of 0x{}", got[i].hex(), V::of(&want[i]).hex())
    })
}

pub fn check_exp(name: &str, oid: u32, r: &Res, e: &Exp) -> Result<(), String> {
    let who = format!("operation {oid} ({name}, thread {})", r.thread);
    if !r.note.is_empty() && r.st == RStat::Done && !matches!(e, Exp::Note(_)) {
        return Err(format!("wrong-value: {who}: {}", r.note));
    }
    match (e, r.st) {
        (Exp::Skip, _) | (_, RStat::Skipped) => Ok(()),
        (Exp::Any, RStat::Panicked | RStat::NoInverse) => Ok(()),
        (Exp::ValsOrPanic(_), RStat::Panicked) => Ok(()),
        (_, RStat::Panicked) => Err(format!("panic: {who} panicked: {}", r.note)),
        (Exp::Vals(v) | Exp::ValsOrPanic(v), RStat::Done) => match differ(&r.vals, v) {
            None => Ok(()),
            Some(d) => Err(format!("wrong-value: {who}: {d}")),
        },
        (Exp::NoInverse, RStat::NoInverse) => Ok(()),
        (Exp::NoInverse, _) => Err(format!("wrong-value: {who}: returned an inverse of a singular matrix")),
        (_, RStat::NoInverse) => Err(format!("wrong-value: {who}: refused to invert an invertible matrix")),
        (Exp::Note(n), RStat::Done) => {
            if *n == r.note { Ok(()) } else { Err(format!("wrong-value: {who}: {} instead of {n}", r.note)) }
        }
        (_, RStat::OtherError) => Err(format!("wrong-value: {who}: refused or inconsistent")),
        (_, s) => Err(format!("wrong-value: {who}: {s:?}")),
    }
}

/// Checks the whole recorded history against the reference model. `killed_ok`: operations that
/// never ended are those of killed callers.
pub fn check_history(order: &[(usize, u32)], pool: &[(usize, Vec<V>)], killed_ok: bool) -> Result<(), String> {
    let w = world();
    let mut slot_words: Vec<Option<Vec<F>>> = vec![None; SLOTS];
    let mut slot_set = vec![0usize; SLOTS];
    // panic while a call was in flight leaves the words unspecified: None
    let mut locals: Vec<Vec<Option<(usize, M)>>> = vec![vec![None; LSLOTS]; w.local.len()];
    let pool_m: Vec<(usize, M)> = pool
        .iter()
        .map(|(s, e)| {
            let (_, r, c) = shim::SHAPES[*s];
            (*s, rf::from_flat(r, c, &e.iter().map(|v| v.f()).collect::<Vec<_>>()))
        })
        .collect();
    let mut hist: Vec<u32> = order.iter().map(|(_, o)| *o).filter(|o| w.ops[*o as usize].is_some()).collect();
    hist.sort_by_key(|o| {
        let r = &w.res[*o as usize];
        if r.seq == 0 { u32::MAX } else { r.seq }
    });
    #[cfg(feature = "full")]
    crate::r1cs::check_history(w, &hist)?;
    for oid in hist {
        let op = w.ops[oid as usize].as_ref().unwrap();
        let r = &w.res[oid as usize];
        if matches!(r.st, RStat::NotRun | RStat::Started) {
            if killed_ok {
                if let (Op::Call { slot, .. } | Op::CallMany { slot, .. }, RStat::Started) = (op, r.st) {
                    slot_words[*slot] = None;
                }
                continue;
            }
            return Err(format!("held-up: operation {oid} ({}) never finished", op.name()));
        }
        let fs = |x: &[V]| x.iter().map(|v| v.f()).collect::<Vec<F>>();
        let exp = match op {
            Op::Hash { rate, d, x } | Op::HashMany { rate, d, x, .. } => Exp::Vals(vec![hash_expect(*rate, d, x)]),
            Op::Fresh { set, x, .. } => {
                let (s, z) = rf::set(*set).permute(&fs(x));
                let mut v = vec![s[1]];
                v.extend(s);
                if z { Exp::ValsOrPanic(v) } else { Exp::Vals(v) }
            }
            Op::New { slot, set } => {
                if r.st == RStat::Done {
                    slot_set[*slot] = *set;
                    slot_words[*slot] = Some(vec![F::zero(); rf::set(*set).t]);
                }
                Exp::Skip
            }
            Op::Call { slot, x, .. } | Op::CallMany { slot, x, .. } => {
                if r.st == RStat::Skipped {
                    Exp::Skip
                } else {
                    let (s, z) = rf::set(slot_set[*slot]).permute(&fs(x));
                    let mut v = vec![s[1]];
                    if matches!(op, Op::CallMany { .. }) {
                        v.extend(s.iter().copied());
                    }
                    slot_words[*slot] = if r.st == RStat::Done { Some(s) } else { None };
                    if z { Exp::ValsOrPanic(v) } else { Exp::Vals(v) }
                }
            }
            Op::Words { slot } => match &slot_words[*slot] {
                Some(v) => Exp::Vals(v.clone()),
                None => Exp::Skip,
            },
            Op::Field { set, f, round } => Exp::Vals(rf::set(*set).field(*f, *round)),
            Op::Nums { set } => Exp::Note(nums_of(rf::set(*set))),
            Op::CloneSet { .. } => Exp::Vals(vec![F::one()]),
            Op::Mat { m, op, rhs, s, i, j } | Op::MatMany { m, op, rhs, s, i, j, .. } => {
                let (sh, a) = &pool_m[*m];
                mat_expect(shim::SHAPES[*sh].0, a, shim::MATOPS[*op], &pool_m[*rhs].1, s.f(), *i, *j)
            }
            Op::LNew { slot, shape, e } => {
                let (_, rr, c) = shim::SHAPES[*shape];
                locals[r.thread][*slot] = Some((*shape, rf::from_flat(rr, c, &fs(e))));
                Exp::Skip
            }
            Op::LCopy { slot, from } => {
                let c = locals[r.thread][*from].clone();
                if c.is_some() {
                    locals[r.thread][*slot] = c;
                }
                Exp::Skip
            }
            Op::LSet { slot, i, j, v } => {
                if r.st == RStat::Panicked {
                    Exp::Vals(vec![])
                } else {
                    if let Some((_, m)) = locals[r.thread][*slot].as_mut() {
                        m[*i][*j] = v.f();
                    }
                    Exp::Skip
                }
            }
            Op::LMat { slot, op, rhs, s, i, j } => {
                let l = &locals[r.thread];
                match (&l[*slot], &l[*rhs]) {
                    (Some((sh, a)), Some((_, b))) => mat_expect(shim::SHAPES[*sh].0, a, shim::MATOPS[*op], b, s.f(), *i, *j),
                    _ => Exp::Skip,
                }
            }
            Op::New2 { a, b, c, d } => Exp::Vals(vec![a.f(), b.f(), c.f(), d.f()]),
            #[cfg(feature = "full")]
            Op::R(_) => Exp::Skip,
        };
        check_exp(&op.name(), oid, r, &exp)?;
    }
    // operands must be as they were: shared ones unchanged, private ones as the model says
    for (k, (_, m)) in pool_m.iter().enumerate() {
        final_mat(&*w.pool[k], m).map_err(|e| format!("wrong-value: shared matrix {k} was changed: {e}"))?;
    }
    for (t, ls) in locals.iter().enumerate() {
        if w.res.iter().any(|r| r.thread == t && r.st == RStat::Started) {
            continue; // killed inside an operation
        }
        for (k, l) in ls.iter().enumerate() {
            if let (Some((_, m)), Some(x)) = (l, &w.local[t][k]) {
                final_mat(&**x, m).map_err(|e| format!("wrong-value: private matrix {k} of thread {t} at the end: {e}"))?;
            }
        }
    }
    Ok(())
}

fn final_mat(x: &dyn Mat, m: &M) -> Result<(), String> {
    let mut out = vec![Fq::default(); OUT];
    match x.op(MatOp::Elements, &(), Fq::default(), 0, 0, &mut out) {
        Status::Ok(n) => {
            let got: Vec<V> = out[..n].iter().map(v_of).collect();
            match differ(&got, &rf::flat(m)) {
                None => Ok(()),
                Some(d) => Err(d),
            }
        }
        s => Err(format!("{s:?}")),
    }
}
