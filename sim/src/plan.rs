//! Plans (what the callers do) and their generation: everything is drawn from one seed.
use crate::kernel::{Event, Strat, NACT};
use crate::ops::*;
use crate::reference::{self as rf, F};
use crate::rng::Rng;
use ark_ff::{Field, One, PrimeField, Zero};
use poseidon_shim as shim;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub threads: Vec<Vec<OpRec>>,
    pub irqs: Vec<OpRec>,
    pub pool: Vec<(usize, Vec<V>)>,
    /// circuit programs the nodes run
    #[cfg(feature = "full")]
    #[serde(default)]
    pub progs: Vec<crate::r1cs::Prog>,
    /// a caller may never wait for a paused one
    pub strict: bool,
    pub killed_ok: bool,
    pub refuse_from_start: bool,
    pub strat: Strat,
}
impl Plan {
    pub fn all(&self) -> Vec<&OpRec> {
        self.threads.iter().flatten().chain(self.irqs.iter()).collect()
    }
    pub fn shape_hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        #[cfg(feature = "full")]
        for s in self.progs.iter().flatten() {
            h = (h ^ crate::r1cs::stmt_kind(s)).wrapping_mul(0x100000001b3).rotate_left(9);
        }
        for (t, ops) in self.threads.iter().enumerate() {
            for o in ops {
                h = (h ^ (t as u64 * 10007 + o.op.kind())).wrapping_mul(0x100000001b3).rotate_left(9);
            }
        }
        h
    }
}

/// A small pool of values for a run: edge values and random ones.
pub struct Vals {
    pub pool: Vec<V>,
    fresh: u64,
}
pub fn edge(r: &mut Rng) -> V {
    let two = F::from(2u64);
    let x = match r.below(14) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(r.below(20)),
        4 => -F::from(r.below(20)),
        5 => two.pow([r.below(253)]),
        6 => -two.pow([r.below(253)]),
        7 => two.pow([64 * r.range(1, 3)]) - F::from(r.below(3)),
        // small Montgomery representation
        8 => F::from(r.below(5)) * two.pow([256u64]).inverse().unwrap(),
        9 => two.pow([64 * r.range(1, 3)]) * two.pow([256u64]).inverse().unwrap(),
        10 => F::from(F::MODULUS_MINUS_ONE_DIV_TWO) + F::from(r.below(3)),
        11 => two.pow([32 * r.range(1, 7)]) + F::from(r.below(2)),
        12 => F::from(u64::MAX - r.below(2)),
        _ => F::from(r.log(0, 63)),
    };
    V::of(&x)
}
/// A value that has much in common with another one: neighbours, the same but for one limb (of the
/// number or of its Montgomery form), one bit, the negative, the inverse, a small multiple.
pub fn near(r: &mut Rng, v: V) -> V {
    let two = F::from(2u64);
    let x = v.f();
    let mont = if r.chance(1, 2) { F::one() } else { two.pow([256u64]).inverse().unwrap() };
    let y = match r.below(7) {
        0 => x + F::one(),
        1 => -x,
        2 => x + F::from(r.range(1, 3)) * two.pow([r.below(253)]) * mont,
        3 => x + F::from(r.next()) * two.pow([64 * r.below(4)]) * mont,
        4 => x - F::from(r.next()) * two.pow([32 * r.below(7)]) * mont,
        5 => x * F::from(r.range(2, 5)),
        _ => x.inverse().unwrap_or(x),
    };
    V::of(&y)
}
impl Vals {
    pub fn new(r: &mut Rng) -> Self {
        let n = r.range(1, 8) as usize;
        let pool = (0..n).map(|_| if r.chance(1, 2) { edge(r) } else { V::of(&r.f()) }).collect();
        Vals { pool, fresh: r.below(101) }
    }
    pub fn one(&mut self, r: &mut Rng) -> V {
        if r.below(100) < self.fresh {
            if r.chance(1, 4) { edge(r) } else { V::of(&r.f()) }
        } else {
            let v = *r.pick(&self.pool);
            if r.chance(1, 24) { near(r, v) } else { v }
        }
    }
    pub fn many(&mut self, r: &mut Rng, n: usize) -> Vec<V> {
        if r.chance(1, 12) {
            let v = self.one(r);
            return vec![v; n];
        }
        (0..n).map(|_| self.one(r)).collect()
    }
}

/// A scheduling strategy; `w` are the weights of the actions enabled for the property.
pub fn strat(r: &mut Rng, w: [u64; NACT]) -> Strat {
    let mut s = Strat {
        seed: r.next(),
        p_cold: 0,
        p_shared: *r.pick(&[65536, 32768, 8192, 1024]),
        p_alloc: *r.pick(&[32768, 8192]),
        p_start: *r.pick(&[0, 8192, 32768]),
        qlo: 0,
        qhi: 0,
        weights: w,
        budget: 0,
        pile: r.chance(1, 3),
    };
    // swarm: switch some of the enabled kinds off
    for k in 1..NACT {
        if s.weights[k] > 0 && s.weights.iter().filter(|x| **x > 0).count() > 1 && r.chance(1, 3) {
            s.weights[k] = 0;
        }
    }
    match r.weighted(&[5, 4, 3, 4, 1]) {
        0 => {
            // a few events at random depths
            s.budget = r.range(1, 6) as u32;
            s.qlo = r.range(2, 12) as u32;
            s.qhi = s.qlo + r.range(1, 6) as u32;
            s.p_cold = *r.pick(&[0, 64, 512]);
        }
        1 => {
            // everybody in flight at once
            s.pile = true;
            s.budget = r.range(8, 64) as u32;
            s.p_cold = *r.pick(&[512, 2048, 8192, 20000]);
            s.p_start = 32768;
            s.qlo = r.range(4, 10) as u32;
            s.qhi = s.qlo + r.range(1, 6) as u32;
        }
        2 => {
            // round robin-ish slicing
            s.qlo = r.range(3, 14) as u32;
            s.qhi = s.qlo + 1;
            s.budget = r.log(4, 11) as u32;
        }
        3 => {
            // at branches taken for the first time
            s.p_cold = *r.pick(&[300, 1500, 6000, 25000, 65536]);
            s.budget = r.log(1, 8) as u32;
        }
        _ => {
            // only at accesses to process-wide memory and allocations
            s.p_shared = 65536;
            s.p_alloc = 65536;
            s.budget = r.range(1, 100) as u32;
        }
    }
    s
}

pub struct Gen {
    pub r: Rng,
    pub v: Vals,
    pub oid: u32,
    /// inputs of recent calls, per parameter set
    recent: Vec<(usize, Vec<V>)>,
}
impl Gen {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let v = Vals::new(&mut r);
        Gen { r, v, oid: 0, recent: vec![] }
    }
    pub fn rec(&mut self, op: Op) -> OpRec {
        self.oid += 1;
        OpRec { oid: self.oid - 1, op }
    }
    fn remember(&mut self, set: usize, x: &[V]) {
        if self.recent.len() == 8 {
            self.recent.remove(0);
        }
        self.recent.push((set, x.to_vec()));
    }
    /// An input related to that of a recent call: the same but for one word, reordered, or made of
    /// what a recent call returns or leaves behind.
    fn related(&mut self, set: usize) -> Option<Vec<V>> {
        if self.recent.is_empty() {
            return None;
        }
        let (from, x) = self.r.pick(&self.recent).clone();
        let t = rf::set(set).t;
        let mut y: Vec<V> = (0..t).map(|i| x[i % x.len()]).collect();
        match self.r.below(11) {
            8 => {
                let k = self.r.idx(t);
                y[k] = near(&mut self.r, y[k]);
            }
            9 => {
                // two words changed so that their sum, difference or product stays
                let (i, j) = (self.r.idx(t), self.r.idx(t));
                let d = self.v.one(&mut self.r).f();
                let (a, b) = (y[i].f(), y[j].f());
                if i != j {
                    let (a, b) = match self.r.below(3) {
                        0 => (a + d, b - d),
                        1 => (a + d, b + d),
                        _ if d.is_zero() => (a, b),
                        _ => (a * d, b * d.inverse().unwrap()),
                    };
                    (y[i], y[j]) = (V::of(&a), V::of(&b));
                }
            }
            10 => y.reverse(),
            0 | 1 => {
                let k = self.r.idx(t);
                y[k] = self.v.one(&mut self.r);
            }
            2 => {
                let (i, j) = (self.r.idx(t), self.r.idx(t));
                y.swap(i, j);
            }
            3 => y.rotate_left(1),
            4 => {}
            k => {
                let f: Vec<F> = x.iter().map(|v| v.f()).collect();
                let (out, zero) = rf::set(from).permute(&f);
                if zero {
                    return None;
                }
                if k == 5 {
                    y = (0..t).map(|i| V::of(&out[i % out.len()])).collect();
                    if self.r.chance(1, 3) {
                        let k = self.r.idx(t);
                        y[k] = self.v.one(&mut self.r);
                    }
                } else {
                    // a chain of hashes
                    let i = self.r.idx(t);
                    y[i] = V::of(&out[1]);
                }
            }
        }
        Some(y)
    }
    /// Words for a call on a parameter set.
    pub fn words(&mut self, set: usize) -> Vec<V> {
        let x = match if self.r.chance(1, 5) { self.related(set) } else { None } {
            Some(x) => x,
            None => self.v.many(&mut self.r, rf::set(set).t),
        };
        self.remember(set, &x);
        x
    }
    pub fn hash(&mut self, rate: usize) -> Op {
        if self.r.chance(1, 10) {
            if let Some(x) = special_input(self, rate - 1) {
                return Op::Hash { rate, d: x[0], x: x[1..].to_vec() };
            }
        }
        let x = self.words(rate - 1);
        Op::Hash { rate, d: x[0], x: x[1..].to_vec() }
    }
    pub fn set_id(&mut self) -> usize {
        if self.r.chance(1, 2) { self.r.idx(rf::N_SHIPPED) } else { self.r.idx(rf::n_sets()) }
    }
    pub fn fresh(&mut self, set: usize) -> Op {
        let opt = self.r.chance(1, 2);
        let moved = self.r.chance(1, 4);
        if rf::set(set).alpha >= 0 && self.r.chance(1, 10) {
            if let Some(x) = special_input(self, set) {
                return Op::Fresh { set, opt, x, moved };
            }
        }
        let x = self.words(set);
        Op::Fresh { set, opt, x, moved }
    }
    pub fn field(&mut self, set: usize) -> Op {
        let f = self.r.idx(14);
        let round = self.r.idx(rf::set(set).r_p);
        Op::Field { set, f, round }
    }
    /// A matrix of a shape: random, structured, singular, with edge values.
    pub fn matrix(&mut self, shape: usize) -> Vec<V> {
        let (kind, n, c) = shim::SHAPES[shape];
        let r = &mut self.r;
        if n == c && r.chance(1, 3) {
            if let Some(m) = structured(r, n) {
                if kind != "mds" || rf::inverse(&m).is_some() {
                    return rf::flat(&m).iter().map(V::of).collect();
                }
            }
        }
        let mut m: rf::M = match r.below(9) {
            0 => rf::zeros(n, c),
            1 if n == c => rf::ident(n),
            2 => (0..n).map(|_| (0..c).map(|_| F::from(r.below(4))).collect()).collect(),
            3 => (0..n).map(|_| (0..c).map(|_| if r.chance(2, 3) { F::zero() } else { r.f() }).collect()).collect(),
            4 if n == c => {
                // a permutation, possibly scaled
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                let mut m = rf::zeros(n, n);
                for i in 0..n {
                    m[i][p[i]] = if r.chance(1, 2) { F::one() } else { r.f() };
                }
                m
            }
            5 => (0..n).map(|_| (0..c).map(|_| edge(r).f()).collect()).collect(),
            6 if n == c => {
                // triangular
                (0..n).map(|i| (0..c).map(|j| if j > i { F::zero() } else { r.f() }).collect()).collect()
            }
            _ => (0..n).map(|_| (0..c).map(|_| r.f()).collect()).collect(),
        };
        if n > 1 && n == c && r.chance(1, 4) {
            // make it singular: one row a combination of the others
            let k = r.idx(n);
            let co: Vec<F> = (0..n).map(|_| if r.chance(1, 3) { F::zero() } else { r.f() }).collect();
            for j in 0..c {
                m[k][j] = (0..n).filter(|i| *i != k).map(|i| co[i] * m[i][j]).sum();
            }
        }
        if kind == "mds" && rf::inverse(&m).is_none() {
            m = loop {
                let m: rf::M = (0..n).map(|_| (0..c).map(|_| r.f()).collect()).collect();
                if rf::inverse(&m).is_some() {
                    break m;
                }
            };
        }
        rf::flat(&m).iter().map(V::of).collect()
    }
    /// Which matrix operations cost too much for large squares.
    pub fn mat_op(&mut self, shape: usize) -> usize {
        let (kind, n, _) = shim::SHAPES[shape];
        loop {
            let k = self.r.idx(shim::MATOPS.len());
            let op = shim::MATOPS[k];
            use shim::MatOp::*;
            let ok = match op {
                Elements | Get | Transpose | Hadamard | IterRows | Dims | SetCopy | CloneEq | Rebuild => true,
                // documented limit: square matrices up to 8
                Det => kind == "square" && n <= 8,
                Minors | Inverse if kind == "square" => n <= 6 || n <= 8 && self.r.chance(1, 12),
                Inverse => kind == "mds" && n <= 8 && (n <= 6 || self.r.chance(1, 12)),
                Minors => false,
                Cofactors | Identity => kind == "square",
                Mul | MulGeneral | Scalar | Row => kind == "square" || kind == "rect",
                MulWide => kind == "rect",
                V | W | Hat => kind == "mds",
                Inner => kind == "arc",
            };
            if ok {
                return k;
            }
        }
    }
}

/// Square matrices with the structure that shortcuts and pivoting meet.
fn structured(r: &mut Rng, n: usize) -> Option<rf::M> {
    let mut rnd = |r: &mut Rng| -> rf::M { (0..n).map(|_| (0..n).map(|_| r.f()).collect()).collect() };
    let similar = |r: &mut Rng, d: rf::M, rnd: &mut dyn FnMut(&mut Rng) -> rf::M| -> Option<rf::M> {
        if n > 6 {
            return Some(d); // the reference inverse takes too long
        }
        let p = rnd(r);
        let q = rf::inverse(&p)?;
        Some(rf::mul(&rf::mul(&p, &d), &q))
    };
    let diag = |v: Vec<F>| -> rf::M {
        let mut m = rf::zeros(n, n);
        for (i, x) in v.into_iter().enumerate() {
            m[i][i] = x;
        }
        m
    };
    let k = r.idx(n);
    let a = r.f();
    Some(match r.below(17) {
        // every element the same; a multiple of the identity
        0 => vec![vec![if r.chance(1, 2) { F::one() } else { a }; n]; n],
        1 => diag(vec![if r.chance(1, 2) { -F::one() } else { a }; n]),
        2 => diag((0..n).map(|i| if i == k && r.chance(1, 2) { F::zero() } else { r.f() }).collect()),
        // its own inverse
        3 => {
            let d = diag((0..n).map(|_| if r.chance(1, 2) { F::one() } else { -F::one() }).collect());
            similar(r, d, &mut rnd)?
        }
        // its own square
        4 => {
            let d = diag((0..n).map(|_| if r.chance(1, 2) { F::one() } else { F::zero() }).collect());
            similar(r, d, &mut rnd)?
        }
        // a power is zero
        5 => {
            let mut d = rf::zeros(n, n);
            for i in 1..n {
                d[i - 1][i] = F::one();
            }
            similar(r, d, &mut rnd)?
        }
        // symmetric, antisymmetric (singular when odd), circulant, Vandermonde, Cauchy-like
        6 => {
            let m = rnd(r);
            (0..n).map(|i| (0..n).map(|j| m[i.min(j)][i.max(j)]).collect()).collect()
        }
        7 => {
            let m = rnd(r);
            (0..n).map(|i| (0..n).map(|j| if i == j { F::zero() } else if i < j { m[i][j] } else { -m[j][i] }).collect()).collect()
        }
        8 => {
            let v: Vec<F> = (0..n).map(|_| r.f()).collect();
            (0..n).map(|i| (0..n).map(|j| v[(j + n - i) % n]).collect()).collect()
        }
        9 => {
            let v: Vec<F> = (0..n).map(|_| r.f()).collect();
            (0..n)
                .map(|i| {
                    let mut x = F::one();
                    (0..n).map(|_| { let y = x; x *= v[i]; y }).collect()
                })
                .collect()
        }
        // of low rank
        10 => {
            let rank = r.idx(n.min(3)) + 1;
            let (b, c) = (rnd(r), rnd(r));
            (0..n).map(|i| (0..n).map(|j| (0..rank.min(n)).map(|l| b[i][l] * c[l][j]).sum()).collect()).collect()
        }
        // invertible, though a leading block is singular
        11 | 12 => {
            let mut m = rnd(r);
            if k == 0 {
                m[0][0] = F::zero();
            } else {
                for j in 0..=k {
                    m[k][j] = (0..k).map(|i| F::from(i as u64 + 2) * m[i][j]).sum();
                }
            }
            m
        }
        // a zero row or column, or a line of the identity
        13 => {
            let mut m = rnd(r);
            let (col, e) = (r.chance(1, 2), r.chance(1, 2));
            for j in 0..n {
                let v = if e && j == k { F::one() } else { F::zero() };
                if col { m[j][k] = v } else { m[k][j] = v }
            }
            m
        }
        // zeros and ones; two equal lines; a zero diagonal
        14 => (0..n).map(|_| (0..n).map(|_| F::from(r.below(2))).collect()).collect(),
        15 => {
            let mut m = rnd(r);
            let l = r.idx(n);
            if r.chance(1, 2) {
                m[k] = m[l].clone();
            } else {
                for x in m.iter_mut() {
                    x[k] = x[l];
                }
            }
            m
        }
        _ => {
            let mut m = rnd(r);
            for i in 0..n {
                m[i][i] = F::zero();
            }
            m
        }
    })
}

fn callers(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 1,
        1..=4 => r.range(2, 3) as usize,
        5..=7 => r.range(4, 6) as usize,
        8 => r.range(7, 10) as usize,
        _ if r.chance(1, 6) => r.range(21, 36) as usize,
        _ => r.range(9, 20) as usize,
    }
}

pub fn empty(prop: &str, seed: u64) -> Plan {
    Plan {
        prop: prop.into(),
        seed,
        threads: vec![],
        irqs: vec![],
        pool: vec![],
        #[cfg(feature = "full")]
        progs: vec![],
        strict: false,
        killed_ok: false,
        refuse_from_start: false,
        strat: Strat { seed: 0, p_cold: 0, p_shared: 0, p_alloc: 0, p_start: 0, qlo: 0, qhi: 0, weights: [1, 0, 0, 0, 0, 0], budget: 0, pile: false },
    }
}

/// The plan of run number `i` of a property.
pub fn gen(prop: &str, seed: u64, i: u64, thorough: bool) -> Plan {
    let mut g = Gen::new(seed);
    let mut p = match prop {
        "C01" => c01(&mut g, i, thorough),
        "C02" => c02(&mut g, i, thorough),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C09" => c09(&mut g, i, thorough),
        "C10" => c10(&mut g),
        #[cfg(feature = "full")]
        "C05" | "C06" | "C07" => crate::r1cs::gen(prop, &mut g),
        #[cfg(feature = "full")]
        "C08" => crate::r1cs::cluster::gen(&mut g, thorough),
        _ => panic!("no generator for {prop}"),
    };
    p.prop = prop.into();
    p.seed = seed;
    p
}

/// Roughly how many field multiplications a hash with a parameter set takes (powers are computed
/// by repeated multiplication).
fn field_ops(set: usize) -> u64 {
    let s = rf::set(set);
    let sbox = if s.alpha < 0 { 400 } else { s.alpha as u64 };
    ((s.r_f * s.t + s.r_p) as u64) * sbox + ((s.r_f + s.r_p) * s.t * s.t) as u64
}

/// How often a call is repeated in a row; sometimes past what 8 bits count.
fn many(r: &mut Rng, set: usize, usual: u64) -> u32 {
    let cheap = field_ops(set) < 12_000;
    (if !cheap { r.range(2, 4) } else if r.chance(1, 6) { r.range(257, 300) } else { r.range(2, usual) }) as u32
}

/// More calls than 16 bits count; for the dear sets, more than 12 in a quick check.
fn long_life(set: usize, thorough: bool) -> u32 {
    if cfg!(debug_assertions) || !cfg!(feature = "full") {
        300
    } else if set < 3 || thorough {
        66_000
    } else {
        5_000
    }
}

fn c01(g: &mut Gen, i: u64, thorough: bool) -> Plan {
    let mut p = empty("C01", 0);
    if (3..10).contains(&i) || (thorough && i % 4001 == 17) {
        // a long life: more calls than a 16-bit counter holds, then ordinary ones
        let rate = 1 + if i < 10 { i as usize - 3 } else { g.r.idx(7) };
        let (d, x) = (g.v.one(&mut g.r), g.v.many(&mut g.r, rate));
        let mut t = vec![g.rec(Op::HashMany { rate, d, x, n: long_life(rate - 1, thorough) })];
        for k in 1..=7 {
            let h = g.hash(k);
            t.push(g.rec(h));
        }
        p.threads.push(t);
        return p;
    }
    let n = callers(&mut g.r);
    let one_rate = if g.r.chance(1, 3) { Some(1 + g.r.idx(7)) } else { None };
    let one_set = g.set_id();
    let mix = *g.r.pick(&[0u64, 10, 30, 60]);
    let long = g.r.chance(1, 60) && field_ops(one_set) < 12_000;
    for t in 0..n {
        let k = if long { g.r.range(50, 400) } else { g.r.range(1, if n > 6 { 2 } else { 5 }) };
        let mut ops = vec![];
        let mut have = false;
        for _ in 0..k {
            let op = if g.r.below(100) < mix {
                match g.r.below(3) {
                    0 => g.fresh(one_set),
                    1 if t < SLOTS && have => {
                        let opt = g.r.chance(1, 2);
                        let x = g.words(one_set);
                        Op::Call { slot: t, opt, x }
                    }
                    1 => {
                        have = true;
                        Op::New { slot: t, set: one_set }
                    }
                    _ => g.field(one_set),
                }
            } else {
                let rate = one_rate.unwrap_or_else(|| 1 + g.r.idx(7));
                if g.r.chance(1, 40) {
                    let (d, x) = (g.v.one(&mut g.r), g.v.many(&mut g.r, rate));
                    let n = many(&mut g.r, rate - 1, 40);
                    Op::HashMany { rate, d, x, n }
                } else {
                    g.hash(rate)
                }
            };
            // the instance just created is used at once
            let created = matches!(op, Op::New { .. });
            let rec = g.rec(op);
            ops.push(rec);
            if created {
                let x = g.words(one_set);
                let rec = g.rec(Op::Call { slot: t, opt: true, x });
                ops.push(rec);
            }
        }
        p.threads.push(ops);
    }
    p.strat = strat(&mut g.r, [1, 0, 0, 0, 0, 0]);
    p
}

/// Inputs that make the inverse S-box of a chosen round meet a zero.
fn zero_input(g: &mut Gen, set: usize) -> Option<Vec<V>> {
    let s = rf::set(set);
    if s.alpha >= 0 {
        return None;
    }
    let round = g.r.idx(s.r_f + s.r_p);
    let half = s.r_f / 2;
    let partial = round >= half && round < half + s.r_p;
    let z = if partial { 0 } else { g.r.idx(s.t) };
    let at: Vec<F> = (0..s.t).map(|i| if i == z { F::zero() } else { g.r.f() }).collect();
    s.input_reaching(round, &at).map(|x| x.iter().map(V::of).collect())
}

/// Inputs for which the state entering a chosen round is special (all zero, equal words, ones).
pub fn special_input(g: &mut Gen, set: usize) -> Option<Vec<V>> {
    let s = rf::set(set);
    if g.r.chance(1, 8) {
        // a special result
        let mut out: Vec<F> = (0..s.t).map(|_| g.r.f()).collect();
        match g.r.below(6) {
            0 | 1 => out[1] = F::zero(),
            2 => out[1] = edge(&mut g.r).f(),
            3 => out = vec![if g.r.chance(1, 2) { F::zero() } else { out[0] }; s.t],
            4 => out[g.r.idx(s.t)] = F::zero(),
            _ => out[1] = g.v.one(&mut g.r).f(),
        }
        return s.input_giving(&out).map(|x| x.iter().map(V::of).collect());
    }
    if s.r_p > 0 && g.r.chance(1, 4) {
        // special words in the optimized algorithm's own representation of the partial rounds
        let round = g.r.idx(s.r_p);
        let mut at: Vec<F> = (0..s.t).map(|_| g.r.f()).collect();
        let k = g.r.idx(s.t);
        match g.r.below(7) {
            0 => at[1..].iter_mut().for_each(|w| *w = F::zero()),
            1 => at.iter_mut().for_each(|w| *w = F::zero()),
            2 => at[k] = F::zero(),
            3 => at[k] = F::one(),
            4 => at[k] = -F::one(),
            5 => {
                let j = g.r.idx(s.t);
                at[k] = at[j];
            }
            _ => at[k] = edge(&mut g.r).f(),
        }
        return s.input_reaching_optimized(round, &at).map(|x| x.iter().map(V::of).collect());
    }
    let round = g.r.idx(s.r_f + s.r_p + 1).min(s.r_f + s.r_p - 1);
    let at: Vec<F> = match g.r.below(8) {
        0 => vec![F::zero(); s.t],
        1 => vec![F::one(); s.t],
        2 => vec![g.r.f(); s.t],
        3 => (0..s.t).map(|_| edge(&mut g.r).f()).collect(),
        4 | 5 => {
            // one word special, at the S-box or before the round constants are added
            let mut at: Vec<F> = (0..s.t).map(|_| g.r.f()).collect();
            let k = if g.r.chance(1, 2) { 0 } else { g.r.idx(s.t) };
            at[k] = match g.r.below(4) {
                0 | 1 => F::zero(),
                2 => F::one(),
                _ => edge(&mut g.r).f(),
            };
            if g.r.chance(1, 2) {
                at[k] += s.arc[round][k];
            }
            at
        }
        6 => {
            // two words equal
            let mut at: Vec<F> = (0..s.t).map(|_| g.r.f()).collect();
            let (i, j) = (g.r.idx(s.t), g.r.idx(s.t));
            at[i] = at[j];
            at
        }
        // the state before the round constants: all zero or all equal
        _ => {
            let v = if g.r.chance(1, 2) { F::zero() } else { g.r.f() };
            (0..s.t).map(|i| v + s.arc[round][i]).collect()
        }
    };
    s.input_reaching(round, &at).map(|x| x.iter().map(V::of).collect())
}

fn c02(g: &mut Gen, i: u64, thorough: bool) -> Plan {
    let mut p = empty("C02", 0);
    if (5..14).contains(&i) || (thorough && i % 4001 == 19) {
        // a long life of one instance
        let (set, opt) = match i {
            5..=11 => (i as usize - 5, true),
            12 | 13 => (i as usize - 12, false),
            _ => (g.r.idx(7), g.r.chance(1, 2)),
        };
        let x = g.v.many(&mut g.r, rf::set(set).t);
        let y = g.v.many(&mut g.r, rf::set(set).t);
        let mut t = vec![];
        for op in [
            Op::New { slot: 0, set },
            Op::CallMany { slot: 0, opt, x: x.clone(), n: long_life(set, thorough) },
            Op::Words { slot: 0 },
            Op::Call { slot: 0, opt: !opt, x: y.clone() },
            Op::Words { slot: 0 },
            Op::Call { slot: 0, opt, x: y },
        ] {
            t.push(g.rec(op));
        }
        p.threads.push(t);
        return p;
    }
    let n = if g.r.chance(1, 2) { 1 } else { g.r.range(2, 4) as usize };
    // instances: a few slots over one or several sets
    let nslots = g.r.range(1, 4) as usize;
    let inverse_only = g.r.chance(1, 3);
    let sets: Vec<usize> = (0..nslots)
        .map(|_| loop {
            let s = g.set_id();
            if !inverse_only || rf::set(s).alpha < 0 {
                break s;
            }
        })
        .collect();
    let shared_slots = g.r.chance(1, 2);
    let hist = if g.r.chance(1, 25) && sets.iter().all(|s| field_ops(*s) < 12_000) { g.r.range(40, 200) } else { g.r.range(3, 16) };
    for t in 0..n {
        let mut ops = vec![];
        let own: Vec<usize> = if shared_slots { (0..nslots).collect() } else { (0..nslots).filter(|s| s % n == t).collect() };
        if own.is_empty() {
            continue;
        }
        if t == 0 || !shared_slots {
            for s in &own {
                let rec = g.rec(Op::New { slot: *s, set: sets[*s] });
                ops.push(rec);
                if g.r.chance(1, 3) {
                    let rec = g.rec(Op::Words { slot: *s });
                    ops.push(rec);
                }
            }
        }
        let mut last: Option<Vec<V>> = None;
        for _ in 0..hist / n as u64 + 1 {
            let slot = *g.r.pick(&own);
            let tt = rf::set(sets[slot]).t;
            let opt = g.r.chance(1, 2);
            let op = match g.r.below(12) {
                0..=4 => {
                    let x = g.words(sets[slot]);
                    last = Some(x.clone());
                    Op::Call { slot, opt, x }
                }
                5 | 6 => match last.clone().filter(|x| x.len() == tt) {
                    // the same input again, by the other algorithm too
                    Some(x) => Op::Call { slot, opt, x },
                    None => Op::Words { slot },
                },
                7 => match zero_input(g, sets[slot]) {
                    Some(x) => Op::Call { slot, opt, x },
                    None => match special_input(g, sets[slot]) {
                        Some(x) => Op::Call { slot, opt, x },
                        None => Op::Words { slot },
                    },
                },
                8 => {
                    let x = g.v.many(&mut g.r, tt);
                    let n = many(&mut g.r, sets[slot], 12);
                    Op::CallMany { slot, opt, x, n }
                }
                9 => g.fresh(sets[slot]),
                10 if !shared_slots && g.r.chance(1, 4) => Op::New { slot, set: sets[slot] },
                _ => Op::Words { slot },
            };
            let rec = g.rec(op);
            ops.push(rec);
        }
        p.threads.push(ops);
    }
    p.strat = strat(&mut g.r, [1, 0, 0, 0, 0, 0]);
    p
}

/// A mix of native operations for the fault properties.
fn native(g: &mut Gen, p: &Plan, heavy: bool) -> Op {
    match g.r.below(if p.pool.is_empty() { 8 } else { 12 }) {
        0..=4 => {
            let rate = 1 + g.r.idx(7);
            g.hash(rate)
        }
        5 | 6 => {
            let s = g.set_id();
            let s = if rf::set(s).alpha < 0 { g.r.idx(7) } else { s };
            g.fresh(s)
        }
        7 => {
            let s = g.set_id();
            match g.r.below(6) {
                0 => Op::Nums { set: s },
                1 => Op::CloneSet { set: s },
                _ => g.field(s),
            }
        }
        _ => {
            let m = g.r.idx(p.pool.len());
            mat(g, p, m, heavy)
        }
    }
}

fn mat(g: &mut Gen, p: &Plan, m: usize, heavy: bool) -> Op {
    let shape = p.pool[m].0;
    let (kind, n, c) = shim::SHAPES[shape];
    let mut op = g.mat_op(shape);
    if !heavy && n > 5 && matches!(shim::MATOPS[op], shim::MatOp::Inverse | shim::MatOp::Minors) {
        op = 0;
    }
    let _ = kind;
    let same: Vec<usize> = (0..p.pool.len()).filter(|k| p.pool[*k].0 == shape).collect();
    let rhs = *g.r.pick(&same);
    let s = g.v.one(&mut g.r);
    let (i, j) = (g.r.idx(n), g.r.idx(c));
    if g.r.chance(1, 30) {
        let dear = match shim::MATOPS[op] {
            shim::MatOp::Det => n > 4,
            shim::MatOp::Inverse | shim::MatOp::Minors => n > 3,
            _ => false,
        };
        let n = (if dear { g.r.range(2, 4) } else if g.r.chance(1, 3) { g.r.range(257, 300) } else { g.r.range(2, 20) }) as u32;
        return Op::MatMany { m, op, rhs, s, i, j, n };
    }
    Op::Mat { m, op, rhs, s, i, j }
}

fn pool(g: &mut Gen, max: u64) -> Vec<(usize, Vec<V>)> {
    let k = g.r.range(0, max);
    let shapes: Vec<usize> = (0..g.r.range(1, 3)).map(|_| g.r.idx(shim::SHAPES.len())).collect();
    (0..k)
        .map(|_| {
            let s = *g.r.pick(&shapes);
            (s, g.matrix(s))
        })
        .collect()
}

fn c03(g: &mut Gen) -> Plan {
    let mut p = empty("C03", 0);
    p.pool = pool(g, 4);
    let n = if g.r.chance(1, 8) { 1 } else { callers(&mut g.r).max(2) };
    for _ in 0..n {
        let k = g.r.range(1, if n > 6 { 2 } else { 4 });
        let ops = (0..k)
            .map(|_| {
                let op = native(g, &p, false);
                g.rec(op)
            })
            .collect();
        p.threads.push(ops);
    }
    let q = g.r.range(0, 8);
    for _ in 0..q {
        let op = if g.r.chance(1, 2) {
            // re-entry into the very operation some caller is in the middle of
            let all: Vec<Op> = p.threads.iter().flatten().map(|o| o.op.clone()).collect();
            match g.r.pick(&all).clone() {
                Op::Hash { rate, .. } => g.hash(rate),
                o => o,
            }
        } else {
            native(g, &p, false)
        };
        let rec = g.rec(op);
        p.irqs.push(rec);
    }
    p.strict = true;
    p.killed_ok = true;
    p.strat = strat(&mut g.r, [4, 4, 2, 5, 1, 0]);
    p
}

fn c04(g: &mut Gen) -> Plan {
    let mut p = empty("C04", 0);
    p.pool = pool(g, 5);
    let n = if g.r.chance(1, 2) { 1 } else { g.r.range(2, 4) as usize };
    for t in 0..n {
        let k = g.r.range(1, 6);
        let mut ops = vec![];
        if g.r.chance(1, 4) {
            let s = g.r.idx(7);
            let rec = g.rec(Op::New { slot: t, set: s });
            ops.push(rec);
            for _ in 0..g.r.range(1, 3) {
                let opt = g.r.chance(1, 2);
                let x = g.words(s);
                let rec = g.rec(Op::Call { slot: t, opt, x });
                ops.push(rec);
                let rec = g.rec(Op::Words { slot: t });
                ops.push(rec);
            }
        }
        for _ in 0..k {
            let op = native(g, &p, true);
            let rec = g.rec(op);
            ops.push(rec);
        }
        p.threads.push(ops);
    }
    p.refuse_from_start = g.r.chance(1, 3);
    p.strat = strat(&mut g.r, [2, 0, 0, 0, 0, 3]);
    p
}

fn c09(g: &mut Gen, i: u64, thorough: bool) -> Plan {
    let mut p = empty("C09", 0);
    if (7..15).contains(&i) || (thorough && i % 4001 == 23) {
        // a long life of one operation on one matrix
        let shape = loop {
            let s = g.r.idx(shim::SHAPES.len());
            if shim::SHAPES[s].1 * shim::SHAPES[s].2 <= 9 {
                break s;
            }
        };
        let (_, n, c) = shim::SHAPES[shape];
        p.pool = (0..2).map(|_| (shape, g.matrix(shape))).collect();
        let op = g.mat_op(shape);
        let (s, i, j) = (g.v.one(&mut g.r), g.r.idx(n), g.r.idx(c));
        let mut t = vec![g.rec(Op::MatMany { m: 0, op, rhs: 1, s, i, j, n: long_life(0, true) })];
        for _ in 0..4 {
            let m = g.r.idx(2);
            let op = mat(g, &p, m, true);
            t.push(g.rec(op));
        }
        p.threads.push(t);
        return p;
    }
    let nshapes = g.r.range(1, 3);
    let shapes: Vec<usize> = (0..nshapes).map(|_| g.r.idx(shim::SHAPES.len())).collect();
    let k = g.r.range(1, 5);
    for _ in 0..k {
        let s = *g.r.pick(&shapes);
        let m = g.matrix(s);
        p.pool.push((s, m));
    }
    let n = if g.r.chance(1, 5) { 1 } else { callers(&mut g.r).min(8) };
    let set = g.set_id();
    for _ in 0..n {
        let mut ops: Vec<OpRec> = vec![];
        let mut shape_of: Vec<Option<usize>> = vec![None; LSLOTS];
        let k = g.r.range(1, 12);
        for _ in 0..k {
            let op = match g.r.below(10) {
                0..=4 => {
                    let m = g.r.idx(p.pool.len());
                    mat(g, &p, m, true)
                }
                5 => match g.r.below(8) {
                    0 => Op::Nums { set },
                    1 => Op::CloneSet { set },
                    2 => Op::New2 { a: g.v.one(&mut g.r), b: g.v.one(&mut g.r), c: g.v.one(&mut g.r), d: g.v.one(&mut g.r) },
                    _ => g.field(set),
                },
                _ => {
                    let slot = g.r.idx(3);
                    match shape_of[slot] {
                        None => {
                            let sh = *g.r.pick(&shapes);
                            let e = g.matrix(sh);
                            shape_of[slot] = Some(sh);
                            Op::LNew { slot, shape: sh, e }
                        }
                        Some(sh) => {
                            let (kind, rows, cols) = shim::SHAPES[sh];
                            match g.r.below(8) {
                                0 => {
                                    let to = g.r.idx(3);
                                    shape_of[to] = Some(sh);
                                    Op::LCopy { slot: to, from: slot }
                                }
                                1..=3 => Op::LSet { slot, i: g.r.idx(rows), j: g.r.idx(cols), v: g.v.one(&mut g.r) },
                                _ => {
                                    let mut op = g.mat_op(sh);
                                    if kind == "mds" && shim::MATOPS[op] == shim::MatOp::Inverse {
                                        op = 0; // may have become singular
                                    }
                                    let same: Vec<usize> = (0..3).filter(|s| shape_of[*s] == Some(sh)).collect();
                                    let rhs = *g.r.pick(&same);
                                    let s = g.v.one(&mut g.r);
                                    Op::LMat { slot, op, rhs, s, i: g.r.idx(rows), j: g.r.idx(cols) }
                                }
                            }
                        }
                    }
                }
            };
            let rec = g.rec(op);
            ops.push(rec);
        }
        p.threads.push(ops);
    }
    p.strat = strat(&mut g.r, [1, 0, 0, 0, 0, 0]);
    p
}

fn c10(g: &mut Gen) -> Plan {
    let mut p = match g.r.below(4) {
        0 => c01(g, 0, false),
        1 => c02(g, 0, false),
        2 => c09(g, 0, false),
        _ => {
            let mut p = empty("C10", 0);
            p.pool = pool(g, 4);
            let n = g.r.range(1, 3);
            for _ in 0..n {
                let k = g.r.range(1, 8);
                let ops = (0..k)
                    .map(|_| {
                        let op = native(g, &p, true);
                        g.rec(op)
                    })
                    .collect();
                p.threads.push(ops);
            }
            p.strat = strat(&mut g.r, [1, 0, 0, 0, 0, 0]);
            p
        }
    };
    p.prop = "C10".into();
    if !p.comparable() && g.r.chance(2, 3) {
        p.threads = vec![p.threads.concat()];
    }
    // Large inverses take minutes in the unoptimised build; C09 has them.
    let big = |shape: usize, op: &mut usize| {
        if shim::SHAPES[shape].1 > 6 && matches!(shim::MATOPS[*op], shim::MatOp::Inverse | shim::MatOp::Minors) {
            *op = 0;
        }
    };
    let pool: Vec<usize> = p.pool.iter().map(|m| m.0).collect();
    for t in p.threads.iter_mut() {
        let mut shape = vec![0; LSLOTS];
        for o in t.iter_mut() {
            match &mut o.op {
                Op::Mat { m, op, .. } | Op::MatMany { m, op, .. } => big(pool[*m], op),
                Op::LNew { slot, shape: s, .. } => shape[*slot] = *s,
                Op::LCopy { slot, from } => shape[*slot] = shape[*from],
                Op::LMat { slot, op, .. } => big(shape[*slot], op),
                _ => {}
            }
        }
    }
    p
}

impl Plan {
    /// Whether what the run observes does not depend on its schedule: no instance has two users.
    pub fn comparable(&self) -> bool {
        let mut user = vec![None; SLOTS];
        for (t, v) in self.threads.iter().enumerate() {
            for o in v {
                if let Op::New { slot, .. } | Op::Call { slot, .. } | Op::CallMany { slot, .. } | Op::Words { slot } = o.op {
                    if *user[slot].get_or_insert(t) != t {
                        return false;
                    }
                }
            }
        }
        self.irqs.is_empty() && !self.killed_ok
    }
}

pub fn events_ok(p: &Plan, e: &[Event]) -> Vec<Event> {
    let oids: std::collections::HashSet<u32> = p.all().iter().map(|o| o.oid).collect();
    e.iter().copied().filter(|e| oids.contains(&e.oid)).collect()
}
