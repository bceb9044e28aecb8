//! Reference model, written from the Poseidon paper and the published generation procedure, and
//! independent of /repo's code: Merlin transcript for the round constants, Cauchy MDS matrix,
//! textbook permutation, plain linear algebra. Field arithmetic is arkworks' `Fp256`.
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};

pub type F = ark_ed_on_bls12_377::Fq;
pub type M = Vec<Vec<F>>;

pub fn f_bytes(x: &F) -> [u8; 32] {
    let v = x.into_bigint().to_bytes_le();
    let mut b = [0u8; 32];
    b.copy_from_slice(&v);
    b
}
pub fn f_from(b: &[u8; 32]) -> F {
    F::from_le_bytes_mod_order(b)
}

// ------------------------------------------------------------------ Keccak / STROBE / Merlin

fn keccak_f(a: &mut [u64; 25]) {
    let mut rc = [0u64; 24];
    let mut lfsr: u8 = 1;
    for r in rc.iter_mut() {
        for j in 0..7 {
            let bit = lfsr & 1;
            if bit == 1 {
                *r ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
    for r in 0..24 {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        // rho, pi
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[1];
        for t in 0..24u32 {
            let nx = y;
            let ny = (2 * x + 3 * y) % 5;
            x = nx;
            y = ny;
            let tmp = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
        }
        // chi
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc[r];
    }
}

/// Merlin's transcript over STROBE-128 (only the operations Merlin uses).
pub struct Transcript {
    st: [u8; 200],
    pos: usize,
    begin: usize,
}
const R: usize = 166;
const FI: u8 = 1;
const FA: u8 = 2;
const FC: u8 = 4;
const FM: u8 = 16;

impl Transcript {
    pub fn new(label: &[u8]) -> Self {
        let mut st = [0u8; 200];
        st[..6].copy_from_slice(&[1, (R + 2) as u8, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        let mut t = Transcript { st, pos: 0, begin: 0 };
        t.perm();
        t.meta(b"Merlin v1.0", false);
        t.append(b"dom-sep", label);
        t
    }
    fn perm(&mut self) {
        let mut a = [0u64; 25];
        for i in 0..25 {
            a[i] = u64::from_le_bytes(self.st[8 * i..8 * i + 8].try_into().unwrap());
        }
        keccak_f(&mut a);
        for i in 0..25 {
            self.st[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
        }
    }
    fn run_f(&mut self) {
        self.st[self.pos] ^= self.begin as u8;
        self.st[self.pos + 1] ^= 4;
        self.st[R + 1] ^= 0x80;
        self.perm();
        self.pos = 0;
        self.begin = 0;
    }
    fn absorb(&mut self, d: &[u8]) {
        for b in d {
            self.st[self.pos] ^= b;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more {
            return;
        }
        let old = self.begin as u8;
        self.begin = self.pos + 1;
        self.absorb(&[old, flags]);
        if flags & FC != 0 && self.pos != 0 {
            self.run_f();
        }
    }
    fn meta(&mut self, d: &[u8], more: bool) {
        self.begin_op(FM | FA, more);
        self.absorb(d);
    }
    pub fn append(&mut self, label: &[u8], msg: &[u8]) {
        self.meta(label, false);
        self.meta(&(msg.len() as u32).to_le_bytes(), true);
        self.begin_op(FA, false);
        self.absorb(msg);
    }
    pub fn challenge(&mut self, label: &[u8], out: &mut [u8]) {
        self.meta(label, false);
        self.meta(&(out.len() as u32).to_le_bytes(), true);
        self.begin_op(FI | FA | FC, false);
        for b in out {
            *b = self.st[self.pos];
            self.st[self.pos] = 0;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
}

// ------------------------------------------------------------------ matrices

pub fn zeros(r: usize, c: usize) -> M {
    vec![vec![F::zero(); c]; r]
}
pub fn ident(n: usize) -> M {
    let mut m = zeros(n, n);
    for (i, r) in m.iter_mut().enumerate() {
        r[i] = F::one();
    }
    m
}
pub fn from_flat(r: usize, c: usize, e: &[F]) -> M {
    assert_eq!(e.len(), r * c);
    (0..r).map(|i| e[i * c..(i + 1) * c].to_vec()).collect()
}
pub fn flat(m: &M) -> Vec<F> {
    m.iter().flatten().copied().collect()
}
pub fn transpose(m: &M) -> M {
    let c = m.first().map_or(0, |r| r.len());
    (0..c).map(|j| m.iter().map(|r| r[j]).collect()).collect()
}
pub fn mul(a: &M, b: &M) -> M {
    let c = b[0].len();
    a.iter()
        .map(|r| {
            (0..c)
                .map(|j| {
                    let mut s = F::zero();
                    for (k, x) in r.iter().enumerate() {
                        s += *x * b[k][j];
                    }
                    s
                })
                .collect()
        })
        .collect()
}
/// Determinant by Gaussian elimination.
pub fn det(m: &M) -> F {
    let n = m.len();
    let mut a = m.clone();
    let mut d = F::one();
    for c in 0..n {
        match (c..n).find(|&r| !a[r][c].is_zero()) {
            None => return F::zero(),
            Some(r) => {
                if r != c {
                    a.swap(r, c);
                    d = -d;
                }
                let inv = a[c][c].inverse().unwrap();
                d *= a[c][c];
                for r in c + 1..n {
                    let k = a[r][c] * inv;
                    if !k.is_zero() {
                        for j in c..n {
                            let x = a[c][j];
                            a[r][j] -= k * x;
                        }
                    }
                }
            }
        }
    }
    d
}
/// Inverse by Gauss-Jordan elimination.
pub fn inverse(m: &M) -> Option<M> {
    let n = m.len();
    let mut a: M = m.clone();
    let mut b = ident(n);
    for c in 0..n {
        let r = (c..n).find(|&r| !a[r][c].is_zero())?;
        a.swap(r, c);
        b.swap(r, c);
        let inv = a[c][c].inverse().unwrap();
        for j in 0..n {
            a[c][j] *= inv;
            b[c][j] *= inv;
        }
        for r in 0..n {
            if r != c && !a[r][c].is_zero() {
                let k = a[r][c];
                for j in 0..n {
                    let (x, y) = (a[c][j], b[c][j]);
                    a[r][j] -= k * x;
                    b[r][j] -= k * y;
                }
            }
        }
    }
    Some(b)
}
pub fn without(m: &M, i: usize, j: usize) -> M {
    m.iter()
        .enumerate()
        .filter(|(r, _)| *r != i)
        .map(|(_, row)| row.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| *x).collect())
        .collect()
}
pub fn minors(m: &M) -> M {
    let n = m.len();
    (0..n).map(|i| (0..n).map(|j| det(&without(m, i, j))).collect()).collect()
}

// ------------------------------------------------------------------ parameter sets

#[derive(Clone, Debug)]
pub struct RefSet {
    pub name: String,
    pub m: usize,
    pub t: usize,
    pub r_f: usize,
    pub r_p: usize,
    /// exponent, or -1 for the inverse S-box
    pub alpha: i64,
    pub mds: M,
    pub arc: M,
    pub opt_arc: M,
    pub m_hat: M,
    pub v: Vec<F>,
    pub w: Vec<F>,
    pub m_prime: M,
    pub m_doubleprime: M,
    pub m_inverse: M,
    pub m_hat_inverse: M,
    pub m_00: F,
    pub m_i: M,
    pub v_coll: Vec<Vec<F>>,
    pub w_hat_coll: Vec<Vec<F>>,
    /// exponent inverting the S-box
    pub alpha_inv: Option<Vec<u64>>,
}

fn prime(hat: &M) -> M {
    let n = hat.len() + 1;
    let mut m = ident(n);
    for i in 1..n {
        for j in 1..n {
            m[i][j] = hat[i - 1][j - 1];
        }
    }
    m
}

pub fn cauchy(x: &[F], y: &[F]) -> M {
    x.iter().map(|a| y.iter().map(|b| (*a + b).inverse().unwrap()).collect()).collect()
}

pub fn derive_constants(m: usize, t: usize, r_f: usize, r_p: usize, alpha: i64) -> M {
    let mut tr = Transcript::new(b"round-constants");
    tr.append(b"dom-sep", b"poseidon-paramgen");
    tr.append(b"t", &(t as u64).to_le_bytes());
    tr.append(b"M", &(m as u64).to_le_bytes());
    tr.append(b"p", &F::MODULUS.to_bytes_le());
    tr.append(b"r_F", &[r_f as u8]);
    tr.append(b"r_P", &[r_p as u8]);
    tr.append(b"alpha", &(alpha as i32).to_le_bytes());
    (0..r_f + r_p)
        .map(|_| {
            (0..t)
                .map(|_| {
                    let mut b = [0u8; 48];
                    tr.challenge(b"round-constant", &mut b);
                    F::from_le_bytes_mod_order(&b)
                })
                .collect()
        })
        .collect()
}

fn mod_inverse_of(alpha: u64) -> Option<Vec<u64>> {
    // e = alpha^-1 mod (p-1): find k with (k(p-1)+1) divisible by alpha.
    let mut pm1 = F::MODULUS;
    pm1.0[0] -= 1;
    let rem = |limbs: &[u64]| limbs.iter().rev().fold(0u128, |r, l| ((r << 64) | *l as u128) % alpha as u128) as u64;
    let r1 = rem(&pm1.0);
    let k = (0..alpha).find(|k| ((*k as u128 * r1 as u128 + 1) % alpha as u128) == 0)?;
    let mut acc = Vec::new();
    let mut carry: u128 = 1;
    for l in pm1.0.iter() {
        let v = *l as u128 * k as u128 + carry;
        acc.push(v as u64);
        carry = v >> 64;
    }
    acc.push(carry as u64);
    let mut out = vec![0u64; acc.len()];
    let mut r: u128 = 0;
    for i in (0..acc.len()).rev() {
        let cur = (r << 64) | acc[i] as u128;
        out[i] = (cur / alpha as u128) as u64;
        r = cur % alpha as u128;
    }
    assert_eq!(r, 0);
    Some(out)
}

impl RefSet {
    pub fn new(name: String, m: usize, r_f: usize, r_p: usize, alpha: i64, mds: M, arc: M) -> Self {
        let t = mds.len();
        let hat = without(&mds, 0, 0);
        let v: Vec<F> = mds[0][1..].to_vec();
        let w: Vec<F> = mds[1..].iter().map(|r| r[0]).collect();
        let m_hat_inverse = inverse(&hat).unwrap();
        let w_hat: Vec<F> = flat(&mul(&m_hat_inverse, &w.iter().map(|x| vec![*x]).collect()));
        let mut m_dd = ident(t);
        m_dd[0][0] = mds[0][0];
        for i in 1..t {
            m_dd[0][i] = v[i - 1];
            m_dd[i][0] = w_hat[i - 1];
        }
        // optimized constants
        let mt = transpose(&mds);
        let mt_inv = inverse(&mt).unwrap();
        let mut opt = arc.clone();
        let half = r_f / 2;
        let rt = r_f + r_p;
        for r in (half..rt - 1 - half).rev() {
            let inv = mul(&vec![opt[r + 1].clone()], &mt_inv)[0].clone();
            for i in 1..t {
                opt[r][i] += inv[i];
            }
            let mut row = vec![F::zero(); t];
            row[0] = inv[0];
            opt[r + 1] = row;
        }
        // sparse factorisation of the partial rounds' matrices
        let mut mm = mt.clone();
        let mut m_i = ident(t);
        let (mut vc, mut wc) = (vec![], vec![]);
        for _ in 0..r_p {
            let mh = without(&mm, 0, 0);
            let wv: Vec<Vec<F>> = mm[1..].iter().map(|r| vec![r[0]]).collect();
            vc.push(mm[0][1..].to_vec());
            wc.push(flat(&mul(&inverse(&mh).unwrap(), &wv)));
            m_i = prime(&mh);
            mm = mul(&mt, &m_i);
        }
        let alpha_inv = if alpha > 0 && alpha < 1 << 20 { mod_inverse_of(alpha as u64) } else { None };
        RefSet {
            name,
            m,
            t,
            r_f,
            r_p,
            alpha,
            m_00: mds[0][0],
            m_inverse: inverse(&mds).unwrap(),
            m_prime: prime(&hat),
            m_hat: hat,
            v,
            w,
            m_doubleprime: m_dd,
            m_hat_inverse,
            m_i: transpose(&m_i),
            v_coll: vc,
            w_hat_coll: wc,
            opt_arc: opt,
            mds,
            arc,
            alpha_inv,
        }
    }

    pub fn shipped(rate: usize) -> Self {
        let t = rate + 1;
        let x: Vec<F> = (0..t as u64).map(F::from).collect();
        let y: Vec<F> = (t as u64..2 * t as u64).map(F::from).collect();
        Self::new(format!("rate{rate}"), 128, 8, 31, 17, cauchy(&x, &y), derive_constants(128, t, 8, 31, 17))
    }

    fn sbox(&self, x: F, zero: &mut bool) -> F {
        if self.alpha >= 0 {
            x.pow([self.alpha as u64])
        } else {
            if x.is_zero() {
                *zero = true;
            }
            x.inverse().unwrap_or(F::zero())
        }
    }

    /// The textbook permutation. The flag tells whether an inverse S-box met a zero (then the
    /// state is the one under the convention 0 -> 0).
    pub fn permute(&self, x: &[F]) -> (Vec<F>, bool) {
        let mut s = x.to_vec();
        let mut zero = false;
        let half = self.r_f / 2;
        for (r, c) in self.arc.iter().enumerate() {
            for i in 0..self.t {
                s[i] += c[i];
            }
            if r < half || r >= half + self.r_p {
                for w in s.iter_mut() {
                    *w = self.sbox(*w, &mut zero);
                }
            } else {
                s[0] = self.sbox(s[0], &mut zero);
            }
            s = self.mds.iter().map(|row| row.iter().zip(&s).map(|(a, b)| *a * b).sum()).collect();
        }
        (s, zero)
    }
    pub fn hash(&self, x: &[F]) -> F {
        self.permute(x).0[1]
    }

    /// Input for which the state entering the S-box of round `round` is `at` (None when the
    /// S-box cannot be inverted on the way).
    pub fn input_reaching(&self, round: usize, at: &[F]) -> Option<Vec<F>> {
        let half = self.r_f / 2;
        let inv_sbox = |x: F| -> Option<F> {
            if self.alpha >= 0 {
                self.alpha_inv.as_ref().map(|e| x.pow(e))
            } else {
                x.inverse()
            }
        };
        let mut s: Vec<F> = at.to_vec();
        for i in 0..self.t {
            s[i] -= self.arc[round][i];
        }
        for r in (0..round).rev() {
            s = self.m_inverse.iter().map(|row| row.iter().zip(&s).map(|(a, b)| *a * b).sum()).collect();
            if r < half || r >= half + self.r_p {
                for w in s.iter_mut() {
                    *w = inv_sbox(*w)?;
                }
            } else {
                s[0] = inv_sbox(s[0])?;
            }
            for i in 0..self.t {
                s[i] -= self.arc[r][i];
            }
        }
        Some(s)
    }

    /// Input for which the permutation ends in the state `out`.
    pub fn input_giving(&self, out: &[F]) -> Option<Vec<F>> {
        let mut s: Vec<F> = self.m_inverse.iter().map(|row| row.iter().zip(out).map(|(a, b)| *a * b).sum()).collect();
        let half = self.r_f / 2;
        let last = self.r_f + self.r_p - 1;
        for (i, w) in s.iter_mut().enumerate() {
            if i == 0 || last < half || last >= half + self.r_p {
                *w = if self.alpha >= 0 { w.pow(self.alpha_inv.as_ref()?) } else { w.inverse()? };
            }
        }
        self.input_reaching(last, &s)
    }

    /// The input for which the optimized algorithm enters the S-box of its partial round `round`
    /// with the state words `at`.
    pub fn input_reaching_optimized(&self, round: usize, at: &[F]) -> Option<Vec<F>> {
        let half = self.r_f / 2;
        let mut s: Vec<F> = at.to_vec();
        for k in (0..round).rev() {
            let (v, w) = (&self.v_coll[self.r_p - k - 1], &self.w_hat_coll[self.r_p - k - 1]);
            let wr: F = w.iter().zip(&s[1..]).map(|(a, b)| *a * b).sum();
            let wv: F = w.iter().zip(v).map(|(a, b)| *a * b).sum();
            let s0 = (s[0] - wr) * (self.m_00 - wv).inverse()?;
            for i in 1..self.t {
                s[i] -= v[i - 1] * s0;
            }
            s[0] = s0 - self.opt_arc[half + k + 1][0];
            s[0] = if self.alpha >= 0 { s[0].pow(self.alpha_inv.as_ref()?) } else { s[0].inverse()? };
        }
        let m = inverse(&self.m_i)?;
        let mut s: Vec<F> = m.iter().map(|row| row.iter().zip(&s).map(|(a, b)| *a * b).sum()).collect();
        for i in 0..self.t {
            s[i] += self.arc[half][i] - self.opt_arc[half][i];
        }
        self.input_reaching(half, &s)
    }

    /// Field `f` of poseidon_shim::FIELDS (13 = w_hat collection).
    pub fn field(&self, f: usize, round: usize) -> Vec<F> {
        match f {
            0 => flat(&self.mds),
            1 => flat(&self.arc),
            2 => flat(&self.opt_arc),
            3 => flat(&self.m_hat),
            4 => self.v.clone(),
            5 => self.w.clone(),
            6 => flat(&self.m_prime),
            7 => flat(&self.m_doubleprime),
            8 => flat(&self.m_inverse),
            9 => flat(&self.m_hat_inverse),
            10 => vec![self.m_00],
            11 => flat(&self.m_i),
            12 => self.v_coll[round].clone(),
            _ => self.w_hat_coll[round].clone(),
        }
    }
}

/// Names of all parameter sets: 0..7 shipped rates, then the user-built ones in 3 variants.
pub const N_SHIPPED: usize = 7;
pub const VARIANTS: usize = 3;
pub fn n_sets() -> usize {
    N_SHIPPED + poseidon_shim::CUSTOM.len() * VARIANTS
}

fn build_set(id: usize) -> RefSet {
    if id < N_SHIPPED {
        return RefSet::shipped(id + 1);
    }
    let k = (id - N_SHIPPED) / VARIANTS;
    let var = (id - N_SHIPPED) % VARIANTS;
    let (t, r_f, r_p, alpha) = poseidon_shim::CUSTOM[k];
    let mut g = crate::rng::Rng::new(0x5e75 + id as u64);
    loop {
        // variant 0: random Cauchy matrix; 1: random dense; 2: small entries, sparse constants
        let mds = match var {
            0 => {
                let x: Vec<F> = (0..t).map(|_| g.f()).collect();
                let y: Vec<F> = (0..t).map(|_| g.f()).collect();
                cauchy(&x, &y)
            }
            1 => (0..t).map(|_| (0..t).map(|_| g.f()).collect()).collect(),
            _ => (0..t).map(|_| (0..t).map(|_| F::from(g.below(7))).collect()).collect(),
        };
        let arc: M = match var {
            0 => derive_constants(128, t, r_f, r_p, alpha),
            1 => (0..r_f + r_p).map(|_| (0..t).map(|_| g.f()).collect()).collect(),
            _ => (0..r_f + r_p)
                .map(|_| (0..t).map(|_| if g.chance(1, 2) { F::zero() } else { -F::from(g.below(5)) }).collect())
                .collect(),
        };
        // the factorisation needs every intermediate block to be invertible
        if inverse(&mds).is_none() || !factorable(&mds, r_p) {
            continue;
        }
        return RefSet::new(format!("custom{k}.{var}"), 80 + var * 24, r_f, r_p, alpha, mds, arc);
    }
}
fn factorable(mds: &M, r_p: usize) -> bool {
    let mt = transpose(mds);
    if inverse(&without(mds, 0, 0)).is_none() {
        return false;
    }
    let mut mm = mt.clone();
    for _ in 0..r_p {
        let mh = without(&mm, 0, 0);
        if inverse(&mh).is_none() {
            return false;
        }
        mm = mul(&mt, &prime(&mh));
    }
    true
}

static mut SETS: Vec<Option<&'static RefSet>> = Vec::new();
/// The reference of parameter set `id` (computed once per process).
#[allow(static_mut_refs)]
pub fn set(id: usize) -> &'static RefSet {
    unsafe {
        if SETS.is_empty() {
            SETS = vec![None; n_sets()];
        }
        if SETS[id].is_none() {
            SETS[id] = Some(Box::leak(Box::new(build_set(id))));
        }
        SETS[id].unwrap()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// The optimized algorithm, written down once more, reaches the state that was asked for.
    #[test]
    fn optimized_states_are_reached() {
        for id in 0..n_sets() {
            let s = set(id);
            if s.r_p == 0 {
                continue;
            }
            let half = s.r_f / 2;
            for round in [0, 1, s.r_p / 2, s.r_p - 1] {
                let round = round.min(s.r_p - 1);
                let at: Vec<F> = (0..s.t).map(|i| F::from(7u64 + 13 * i as u64)).collect();
                let Some(mut x) = s.input_reaching_optimized(round, &at) else { continue };
                let mut z = false;
                for r in 0..half {
                    for i in 0..s.t {
                        x[i] += s.opt_arc[r][i];
                    }
                    x = x.iter().map(|w| s.sbox(*w, &mut z)).collect();
                    x = s.mds.iter().map(|row| row.iter().zip(&x).map(|(a, b)| *a * b).sum()).collect();
                }
                for i in 0..s.t {
                    x[i] += s.opt_arc[half][i];
                }
                x = s.m_i.iter().map(|row| row.iter().zip(&x).map(|(a, b)| *a * b).sum()).collect();
                for k in 0..round {
                    x[0] = s.sbox(x[0], &mut z) + s.opt_arc[half + k + 1][0];
                    let j = s.r_p - k - 1;
                    let y0 = s.m_00 * x[0] + s.w_hat_coll[j].iter().zip(&x[1..]).map(|(a, b)| *a * b).sum::<F>();
                    for i in 1..s.t {
                        let d = s.v_coll[j][i - 1] * x[0];
                        x[i] += d;
                    }
                    x[0] = y0;
                }
                assert_eq!(x, at, "set {id} round {round}");
            }
        }
    }
}
