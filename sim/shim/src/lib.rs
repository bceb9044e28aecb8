//! Instantiates the generic code of /repo's crates behind object-safe traits, so that the code is
//! compiled (and instrumented, see ../rustc-wrap.sh) here and not in the simulator itself.
//! Nothing in here allocates, except where a function returns a `Box`.
#![allow(non_snake_case, clippy::too_many_arguments)]

use core::any::Any;
pub use decaf377::Fq;
use poseidon_parameters::v1::{
    mat_mul, square_mat_mul, Alpha, ArcMatrix, Matrix, MatrixOperations, MdsMatrix,
    OptimizedArcMatrix, OptimizedMdsMatrices, PoseidonParameters, RoundNumbers, SquareMatrix,
    SquareMatrixOperations,
};
use poseidon_permutation::Instance;

#[cfg(feature = "full")]
pub use ark_relations::r1cs::ConstraintSystemRef;
#[cfg(feature = "full")]
pub use decaf377::{r1cs::FqVar, Bls12_377};

// ---------------------------------------------------------------- native hashes

/// hash_`rate`.
#[inline(never)]
pub fn hash(rate: usize, d: &Fq, x: &[Fq]) -> Fq {
    match rate {
        1 => poseidon377::hash_1(d, x[0]),
        2 => poseidon377::hash_2(d, (x[0], x[1])),
        3 => poseidon377::hash_3(d, (x[0], x[1], x[2])),
        4 => poseidon377::hash_4(d, (x[0], x[1], x[2], x[3])),
        5 => poseidon377::hash_5(d, (x[0], x[1], x[2], x[3], x[4])),
        6 => poseidon377::hash_6(d, (x[0], x[1], x[2], x[3], x[4], x[5])),
        7 => poseidon377::hash_7(d, (x[0], x[1], x[2], x[3], x[4], x[5], x[6])),
        _ => unreachable!(),
    }
}

#[cfg(feature = "full")]
#[inline(never)]
pub fn hash_r1cs(
    rate: usize,
    cs: ConstraintSystemRef<Fq>,
    d: &FqVar,
    x: &[FqVar],
) -> Result<FqVar, ark_relations::r1cs::SynthesisError> {
    use poseidon377::r1cs::*;
    let c = |i: usize| x[i].clone();
    match rate {
        1 => hash_1(cs, d, c(0)),
        2 => hash_2(cs, d, (c(0), c(1))),
        3 => hash_3(cs, d, (c(0), c(1), c(2))),
        4 => hash_4(cs, d, (c(0), c(1), c(2), c(3))),
        5 => hash_5(cs, d, (c(0), c(1), c(2), c(3), c(4))),
        6 => hash_6(cs, d, (c(0), c(1), c(2), c(3), c(4), c(5))),
        7 => hash_7(cs, d, (c(0), c(1), c(2), c(3), c(4), c(5), c(6))),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- parameter sets, instances

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Nums {
    pub m: usize,
    pub r_f: usize,
    pub r_p: usize,
    pub total: usize,
    /// exponent, or -1 for the inverse S-box
    pub alpha: i64,
    pub alpha_bytes: [u8; 4],
    pub alpha_f64: f64,
    pub arc_dims: (usize, usize),
    pub mds_dims: (usize, usize),
}

/// Everything a parameter set is made of, flat.
#[derive(Clone, Default)]
pub struct Raw {
    pub m: usize,
    pub t: usize,
    pub r_f: usize,
    pub r_p: usize,
    pub alpha: i64,
    pub mds: Vec<Fq>,
    pub arc: Vec<Fq>,
    pub opt_arc: Vec<Fq>,
    pub m_hat: Vec<Fq>,
    pub v: Vec<Fq>,
    pub w: Vec<Fq>,
    pub m_prime: Vec<Fq>,
    pub m_doubleprime: Vec<Fq>,
    pub m_inverse: Vec<Fq>,
    pub m_hat_inverse: Vec<Fq>,
    pub m_00: Fq,
    pub m_i: Vec<Fq>,
    pub v_coll: Vec<Vec<Fq>>,
    pub w_hat_coll: Vec<Vec<Fq>>,
}

pub const FIELDS: [&str; 13] = [
    "mds", "arc", "opt_arc", "m_hat", "v", "w", "m_prime", "m_doubleprime", "m_inverse",
    "m_hat_inverse", "m_00", "m_i", "v_coll",
];
pub const FIELD_W_HAT: usize = 13;

pub trait Inst {
    fn opt(&mut self, xs: &[Fq]) -> Fq;
    fn unopt(&mut self, xs: &[Fq]) -> Fq;
    fn words(&self, out: &mut [Fq]);
}

pub trait ParamSet: Sync {
    fn t(&self) -> usize;
    fn nums(&self) -> Nums;
    /// Copies field `f` (index into FIELDS, or FIELD_W_HAT) to `out`; returns its length.
    /// For the per-round collections, `round` selects the entry.
    fn field(&self, f: usize, round: usize, out: &mut [Fq]) -> usize;
    /// A fresh instance on the stack: one call, the returned value and the state words.
    fn fresh(&self, opt: bool, xs: &[Fq], words: &mut [Fq]) -> Fq;
    /// The same on a copy of the parameter set at `place`, where other sets have been before.
    fn fresh_at(&self, place: &mut [u128], opt: bool, xs: &[Fq], words: &mut [Fq]) -> Fq;
    fn instance(&'static self) -> Box<dyn Inst>;
    /// Clones the whole set and compares the clone's tables with the original's.
    fn clone_same(&self) -> bool;
    #[cfg(feature = "full")]
    fn gadget(&self, cs: ConstraintSystemRef<Fq>, xs: &[FqVar]) -> FqVar;
}

struct Set<
    const T: usize,
    const T1: usize,
    const TT: usize,
    const T1T1: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(PoseidonParameters<T, T1, TT, T1T1, RR, RC, RE, RP>);

// The parameter sets are shared between caller threads, as users share them.
unsafe impl<
        const T: usize,
        const T1: usize,
        const TT: usize,
        const T1T1: usize,
        const RR: usize,
        const RC: usize,
        const RE: usize,
        const RP: usize,
    > Sync for Set<T, T1, TT, T1T1, RR, RC, RE, RP>
{
}

struct I<
    const T: usize,
    const T1: usize,
    const TT: usize,
    const T1T1: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(Instance<'static, T, T1, TT, T1T1, RR, RC, RE, RP>);

impl<
        const T: usize,
        const T1: usize,
        const TT: usize,
        const T1T1: usize,
        const RR: usize,
        const RC: usize,
        const RE: usize,
        const RP: usize,
    > Inst for I<T, T1, TT, T1T1, RR, RC, RE, RP>
{
    #[inline(never)]
    fn opt(&mut self, xs: &[Fq]) -> Fq {
        let a: &[Fq; T] = xs.try_into().unwrap();
        self.0.n_to_1_fixed_hash(a)
    }
    #[inline(never)]
    fn unopt(&mut self, xs: &[Fq]) -> Fq {
        let a: [Fq; T] = xs.try_into().unwrap();
        self.0.unoptimized_n_to_1_fixed_hash(a)
    }
    #[inline(never)]
    fn words(&self, out: &mut [Fq]) {
        out[..T].copy_from_slice(&self.0.output_words());
    }
}

fn put(out: &mut [Fq], xs: &[Fq]) -> usize {
    out[..xs.len()].copy_from_slice(xs);
    xs.len()
}

impl<
        const T: usize,
        const T1: usize,
        const TT: usize,
        const T1T1: usize,
        const RR: usize,
        const RC: usize,
        const RE: usize,
        const RP: usize,
    > ParamSet for Set<T, T1, TT, T1T1, RR, RC, RE, RP>
{
    fn t(&self) -> usize {
        T
    }
    #[inline(never)]
    fn nums(&self) -> Nums {
        let p = &self.0;
        Nums {
            m: p.M,
            r_f: p.rounds.full(),
            r_p: p.rounds.partial(),
            total: p.rounds.total(),
            alpha: match p.alpha {
                Alpha::Exponent(e) => e as i64,
                Alpha::Inverse => -1,
            },
            alpha_bytes: p.alpha.to_bytes_le(),
            alpha_f64: p.alpha.into(),
            arc_dims: (p.arc.n_rows(), p.arc.n_cols()),
            mds_dims: (p.mds.n_rows(), p.mds.n_cols()),
        }
    }
    #[inline(never)]
    fn field(&self, f: usize, round: usize, out: &mut [Fq]) -> usize {
        let p = &self.0;
        let o = &p.optimized_mds;
        match f {
            0 => put(out, p.mds.elements()),
            1 => put(out, p.arc.elements()),
            2 => put(out, p.optimized_arc.elements()),
            3 => put(out, o.M_hat.elements()),
            4 => put(out, o.v.elements()),
            5 => put(out, o.w.elements()),
            6 => put(out, o.M_prime.elements()),
            7 => put(out, o.M_doubleprime.elements()),
            8 => put(out, o.M_inverse.elements()),
            9 => put(out, o.M_hat_inverse.elements()),
            10 => put(out, &[o.M_00]),
            11 => put(out, o.M_i.elements()),
            12 => put(out, o.v_collection[round].elements()),
            13 => put(out, o.w_hat_collection[round].elements()),
            _ => unreachable!(),
        }
    }
    #[inline(never)]
    fn fresh(&self, opt: bool, xs: &[Fq], words: &mut [Fq]) -> Fq {
        let a: [Fq; T] = xs.try_into().unwrap();
        let mut i = Instance::new(&self.0);
        let r = if opt { i.n_to_1_fixed_hash(&a) } else { i.unoptimized_n_to_1_fixed_hash(a) };
        words[..T].copy_from_slice(&i.output_words());
        r
    }
    #[inline(never)]
    fn fresh_at(&self, place: &mut [u128], opt: bool, xs: &[Fq], words: &mut [Fq]) -> Fq {
        let a: [Fq; T] = xs.try_into().unwrap();
        assert!(core::mem::size_of_val(&self.0) <= core::mem::size_of_val(place) && core::mem::align_of_val(&self.0) <= 16);
        let c = self.0.clone();
        let p = place.as_mut_ptr().cast::<PoseidonParameters<T, T1, TT, T1T1, RR, RC, RE, RP>>();
        let p: &PoseidonParameters<T, T1, TT, T1T1, RR, RC, RE, RP> = unsafe {
            p.write(c);
            &*p
        };
        let mut i = Instance::new(p);
        let r = if opt { i.n_to_1_fixed_hash(&a) } else { i.unoptimized_n_to_1_fixed_hash(a) };
        words[..T].copy_from_slice(&i.output_words());
        r
    }
    fn instance(&'static self) -> Box<dyn Inst> {
        Box::new(I(Instance::new(&self.0)))
    }
    #[inline(never)]
    fn clone_same(&self) -> bool {
        let c = self.0.clone();
        c.arc == self.0.arc
            && c.mds == self.0.mds
            && c.optimized_arc == self.0.optimized_arc
            && c.optimized_mds == self.0.optimized_mds
            && c.alpha == self.0.alpha
            && c.rounds == self.0.rounds
            && c.M == self.0.M
    }
    #[cfg(feature = "full")]
    #[inline(never)]
    fn gadget(&self, cs: ConstraintSystemRef<Fq>, xs: &[FqVar]) -> FqVar {
        let a: [FqVar; T] = xs.to_vec().try_into().ok().unwrap();
        poseidon_permutation::r1cs::InstanceVar::n_to_1_fixed_hash(self.0.clone(), cs, a)
    }
}

macro_rules! shipped {
    ($($rate:literal => $p:ident),*) => {
        pub fn shipped(rate: usize) -> &'static dyn ParamSet {
            match rate {
                $($rate => Box::leak(Box::new(Set(poseidon377::$p))),)*
                _ => unreachable!(),
            }
        }
    };
}
shipped!(1 => RATE_1_PARAMS, 2 => RATE_2_PARAMS, 3 => RATE_3_PARAMS, 4 => RATE_4_PARAMS,
         5 => RATE_5_PARAMS, 6 => RATE_6_PARAMS, 7 => RATE_7_PARAMS);

fn build<
    const T: usize,
    const T1: usize,
    const TT: usize,
    const T1T1: usize,
    const RR: usize,
    const RC: usize,
    const RE: usize,
    const RP: usize,
>(
    r: &Raw,
) -> &'static dyn ParamSet {
    let vs: Vec<Matrix<1, T1, T1>> = r.v_coll.iter().map(|v| Matrix::new(v)).collect();
    let ws: Vec<Matrix<T1, 1, T1>> = r.w_hat_coll.iter().map(|v| Matrix::new(v)).collect();
    let p = PoseidonParameters::<T, T1, TT, T1T1, RR, RC, RE, RP> {
        M: r.m,
        alpha: if r.alpha < 0 { Alpha::Inverse } else { Alpha::Exponent(r.alpha as u32) },
        rounds: RoundNumbers { r_P: r.r_p, r_F: r.r_f },
        mds: MdsMatrix::new(&r.mds),
        arc: ArcMatrix::new(&r.arc),
        optimized_arc: OptimizedArcMatrix::new(&r.opt_arc),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix::new(&r.m_hat),
            v: Matrix::new(&r.v),
            w: Matrix::new(&r.w),
            M_prime: SquareMatrix::new(&r.m_prime),
            M_doubleprime: SquareMatrix::new(&r.m_doubleprime),
            M_inverse: SquareMatrix::new(&r.m_inverse),
            M_hat_inverse: SquareMatrix::new(&r.m_hat_inverse),
            M_00: r.m_00,
            M_i: Matrix::new(&r.m_i),
            v_collection: vs.try_into().ok().unwrap(),
            w_hat_collection: ws.try_into().ok().unwrap(),
        },
    };
    Box::leak(Box::new(Set(p)))
}

/// (t, r_f, r_p) of the user-built parameter sets.
pub const CUSTOM: [(usize, usize, usize, i64); 18] = [
    (3, 8, 31, 17),
    (2, 2, 1, 5),
    (4, 4, 3, 3),
    (3, 4, 2, -1),
    (5, 6, 5, -1),
    (9, 2, 4, 17),
    (2, 0, 3, 7),
    (6, 2, 2, 2),
    (2, 4, 3, -1),
    (8, 8, 31, 17),
    (4, 8, 9, 1),
    (5, 8, 13, 5),
    (2, 2, 1, 65537),
    (2, 4, 3, 1009),
    (7, 4, 5, 11),
    (4, 6, 7, 257),
    (2, 4, 300, 3),
    (12, 2, 3, 5),
];

pub fn custom(k: usize, r: &Raw) -> &'static dyn ParamSet {
    match k {
        0 => build::<3, 2, 9, 4, 39, 3, 117, 31>(r),
        1 => build::<2, 1, 4, 1, 3, 2, 6, 1>(r),
        2 => build::<4, 3, 16, 9, 7, 4, 28, 3>(r),
        3 => build::<3, 2, 9, 4, 6, 3, 18, 2>(r),
        4 => build::<5, 4, 25, 16, 11, 5, 55, 5>(r),
        5 => build::<9, 8, 81, 64, 6, 9, 54, 4>(r),
        6 => build::<2, 1, 4, 1, 3, 2, 6, 3>(r),
        7 => build::<6, 5, 36, 25, 4, 6, 24, 2>(r),
        8 => build::<2, 1, 4, 1, 7, 2, 14, 3>(r),
        9 => build::<8, 7, 64, 49, 39, 8, 312, 31>(r),
        10 => build::<4, 3, 16, 9, 17, 4, 68, 9>(r),
        11 => build::<5, 4, 25, 16, 21, 5, 105, 13>(r),
        12 => build::<2, 1, 4, 1, 3, 2, 6, 1>(r),
        13 => build::<2, 1, 4, 1, 7, 2, 14, 3>(r),
        14 => build::<7, 6, 49, 36, 9, 7, 63, 5>(r),
        15 => build::<4, 3, 16, 9, 13, 4, 52, 7>(r),
        16 => build::<2, 1, 4, 1, 304, 2, 608, 300>(r),
        17 => build::<12, 11, 144, 121, 5, 12, 60, 3>(r),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- matrices

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Ok(usize),
    NoInverse,
    OtherError,
    /// the operation does not exist for this kind of matrix
    Absent,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum MatOp {
    Elements,
    Get,
    Transpose,
    Det,
    Minors,
    Cofactors,
    Inverse,
    /// self * rhs (square), self * rhs^T (rectangular)
    Mul,
    /// the same through the general product
    MulGeneral,
    /// self * (a matrix with five columns made of rhs), rectangular only
    MulWide,
    Hadamard,
    Scalar,
    Row,
    IterRows,
    Dims,
    Identity,
    /// set one element of a copy, return the copy's elements
    SetCopy,
    V,
    W,
    Hat,
    CloneEq,
    Inner,
    Rebuild,
}
pub const MATOPS: [MatOp; 23] = {
    use MatOp::*;
    [
        Elements, Get, Transpose, Det, Minors, Cofactors, Inverse, Mul, MulGeneral, Hadamard,
        Scalar, Row, IterRows, Dims, Identity, SetCopy, V, W, Hat, CloneEq, Inner, Rebuild, MulWide,
    ]
};

pub trait Mat: Sync + Any {
    fn kind(&self) -> &'static str;
    fn dims(&self) -> (usize, usize);
    fn op(&self, op: MatOp, rhs: &dyn Any, s: Fq, i: usize, j: usize, out: &mut [Fq]) -> Status;
    fn set(&mut self, i: usize, j: usize, v: Fq);
    fn copy(&self) -> Box<dyn Mat>;
    fn as_any(&self) -> &dyn Any;
}

fn iter_rows<M: MatrixOperations>(m: &M, out: &mut [Fq]) -> Status {
    let mut n = 0;
    for r in m.iter_rows() {
        if r.len() != m.n_cols() {
            return Status::OtherError;
        }
        n += put(&mut out[n..], r);
    }
    Status::Ok(n)
}
fn dims<M: MatrixOperations>(m: &M, out: &mut [Fq]) -> Status {
    out[0] = Fq::from(m.n_rows() as u64);
    out[1] = Fq::from(m.n_cols() as u64);
    Status::Ok(2)
}
fn set_copy<M: MatrixOperations + Clone>(m: &M, i: usize, j: usize, s: Fq, out: &mut [Fq]) -> Status {
    let mut c = m.clone();
    c.set_element(i, j, s);
    Status::Ok(put(out, c.elements()))
}
fn clone_eq<M: MatrixOperations + Clone + PartialEq>(m: &M, i: usize, j: usize, s: Fq, out: &mut [Fq]) -> Status {
    // a clone is equal; it is equal after a write iff the written value is the old one
    let mut c = m.clone();
    let same = c == *m;
    c.set_element(i, j, s);
    let same2 = (c == *m) == (s == m.get_element(i, j));
    out[0] = Fq::from((same && same2) as u64);
    Status::Ok(1)
}
fn had<M: MatrixOperations>(a: &M, b: &M, out: &mut [Fq]) -> Status {
    match a.hadamard_product(b) {
        Ok(m) => Status::Ok(put(out, m.elements())),
        Err(_) => Status::OtherError,
    }
}
fn rebuild<M: MatrixOperations>(m: &M, out: &mut [Fq]) -> Status {
    let c = M::new(m.elements());
    Status::Ok(put(out, c.elements()))
}

#[derive(Clone)]
struct Sq<const N: usize, const E: usize>(SquareMatrix<N, E>);
unsafe impl<const N: usize, const E: usize> Sync for Sq<N, E> {}

impl<const N: usize, const E: usize> Mat for Sq<N, E> {
    fn kind(&self) -> &'static str {
        "square"
    }
    fn dims(&self) -> (usize, usize) {
        (N, N)
    }
    #[inline(never)]
    fn op(&self, op: MatOp, rhs: &dyn Any, s: Fq, i: usize, j: usize, out: &mut [Fq]) -> Status {
        let m = &self.0;
        let r = rhs.downcast_ref::<Self>().map(|r| &r.0);
        match op {
            MatOp::Elements => Status::Ok(put(out, m.elements())),
            MatOp::Get => Status::Ok(put(out, &[m.get_element(i, j)])),
            MatOp::Transpose => Status::Ok(put(out, m.transpose().elements())),
            MatOp::Det => Status::Ok(put(out, &[m.determinant()])),
            MatOp::Minors => Status::Ok(put(out, m.minors().elements())),
            MatOp::Cofactors => Status::Ok(put(out, m.cofactors().elements())),
            MatOp::Inverse => match m.inverse() {
                Ok(x) => Status::Ok(put(out, x.elements())),
                Err(_) => Status::NoInverse,
            },
            MatOp::Mul => {
                let x: SquareMatrix<N, E> = square_mat_mul(m, r.unwrap());
                Status::Ok(put(out, x.elements()))
            }
            MatOp::MulGeneral => {
                let x: Matrix<N, N, E> = mat_mul(&m.0, &r.unwrap().0);
                Status::Ok(put(out, x.elements()))
            }
            MatOp::Hadamard => had(m, r.unwrap(), out),
            MatOp::Scalar => Status::Ok(put(out, (m.clone() * s).elements())),
            MatOp::Row => Status::Ok(put(out, m.row_vector(i).elements())),
            MatOp::IterRows => iter_rows(m, out),
            MatOp::Dims => dims(m, out),
            MatOp::Identity => Status::Ok(put(out, SquareMatrix::<N, E>::identity().elements())),
            MatOp::SetCopy => set_copy(m, i, j, s, out),
            MatOp::CloneEq => clone_eq(m, i, j, s, out),
            MatOp::Rebuild => {
                let a: [Fq; E] = m.elements().try_into().unwrap();
                Status::Ok(put(out, SquareMatrix::<N, E>::new_from_known(a).elements()))
            }
            _ => Status::Absent,
        }
    }
    #[inline(never)]
    fn set(&mut self, i: usize, j: usize, v: Fq) {
        self.0.set_element(i, j, v)
    }
    fn copy(&self) -> Box<dyn Mat> {
        Box::new(self.clone())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone)]
struct Re<const R: usize, const C: usize, const E: usize, const RR: usize, const R5: usize, const C5: usize>(Matrix<R, C, E>);
unsafe impl<const R: usize, const C: usize, const E: usize, const RR: usize, const R5: usize, const C5: usize> Sync for Re<R, C, E, RR, R5, C5> {}

impl<const R: usize, const C: usize, const E: usize, const RR: usize, const R5: usize, const C5: usize> Mat for Re<R, C, E, RR, R5, C5> {
    fn kind(&self) -> &'static str {
        "rect"
    }
    fn dims(&self) -> (usize, usize) {
        (R, C)
    }
    #[inline(never)]
    fn op(&self, op: MatOp, rhs: &dyn Any, s: Fq, i: usize, j: usize, out: &mut [Fq]) -> Status {
        let m = &self.0;
        let r = rhs.downcast_ref::<Self>().map(|r| &r.0);
        match op {
            MatOp::Elements => Status::Ok(put(out, m.elements())),
            MatOp::Get => Status::Ok(put(out, &[m.get_element(i, j)])),
            MatOp::Transpose => Status::Ok(put(out, m.transpose().elements())),
            MatOp::Mul | MatOp::MulGeneral => {
                let x: Matrix<R, R, RR> = mat_mul(m, &r.unwrap().transpose());
                Status::Ok(put(out, x.elements()))
            }
            MatOp::MulWide => {
                let b = r.unwrap().elements();
                let mut wide = [Fq::from(0u64); C5];
                for (k, w) in wide.iter_mut().enumerate() {
                    *w = b[k % E] + Fq::from((k / E) as u64);
                }
                let x: Matrix<R, 5, R5> = mat_mul(m, &Matrix::<C, 5, C5>::new(&wide));
                Status::Ok(put(out, x.elements()))
            }
            MatOp::Hadamard => had(m, r.unwrap(), out),
            MatOp::Scalar => Status::Ok(put(out, (m.clone() * s).elements())),
            MatOp::Row => Status::Ok(put(out, m.row_vector(i).elements())),
            MatOp::IterRows => iter_rows(m, out),
            MatOp::Dims => dims(m, out),
            MatOp::SetCopy => set_copy(m, i, j, s, out),
            MatOp::CloneEq => clone_eq(m, i, j, s, out),
            MatOp::Rebuild => {
                let a: [Fq; E] = m.elements().try_into().unwrap();
                Status::Ok(put(out, Matrix::<R, C, E>::new_from_known(a).elements()))
            }
            _ => Status::Absent,
        }
    }
    #[inline(never)]
    fn set(&mut self, i: usize, j: usize, v: Fq) {
        self.0.set_element(i, j, v)
    }
    fn copy(&self) -> Box<dyn Mat> {
        Box::new(self.clone())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone)]
struct Md<const N: usize, const N1: usize, const E: usize, const E1: usize>(MdsMatrix<N, N1, E, E1>);
unsafe impl<const N: usize, const N1: usize, const E: usize, const E1: usize> Sync for Md<N, N1, E, E1> {}

impl<const N: usize, const N1: usize, const E: usize, const E1: usize> Mat for Md<N, N1, E, E1> {
    fn kind(&self) -> &'static str {
        "mds"
    }
    fn dims(&self) -> (usize, usize) {
        (N, N)
    }
    #[inline(never)]
    fn op(&self, op: MatOp, rhs: &dyn Any, s: Fq, i: usize, j: usize, out: &mut [Fq]) -> Status {
        let m = &self.0;
        let r = rhs.downcast_ref::<Self>().map(|r| &r.0);
        match op {
            MatOp::Elements => Status::Ok(put(out, m.elements())),
            MatOp::Get => Status::Ok(put(out, &[m.get_element(i, j)])),
            MatOp::Transpose => Status::Ok(put(out, m.transpose().elements())),
            MatOp::Inverse => Status::Ok(put(out, m.inverse().elements())),
            MatOp::Hadamard => had(m, r.unwrap(), out),
            MatOp::IterRows => iter_rows(m, out),
            MatOp::Dims => dims(m, out),
            MatOp::SetCopy => set_copy(m, i, j, s, out),
            MatOp::CloneEq => clone_eq(m, i, j, s, out),
            MatOp::V => Status::Ok(put(out, m.v().elements())),
            MatOp::W => Status::Ok(put(out, m.w().elements())),
            MatOp::Hat => Status::Ok(put(out, m.hat().elements())),
            MatOp::Rebuild => {
                let a: [Fq; E] = m.elements().try_into().unwrap();
                let k = MdsMatrix::<N, N1, E, E1>::new_from_known(a);
                let f = MdsMatrix::<N, N1, E, E1>::from_elements(m.elements());
                let n = MdsMatrix::<N, N1, E, E1>::new(m.elements());
                if k != f || f != n {
                    return Status::OtherError;
                }
                Status::Ok(put(out, k.elements()))
            }
            _ => Status::Absent,
        }
    }
    #[inline(never)]
    fn set(&mut self, i: usize, j: usize, v: Fq) {
        self.0.set_element(i, j, v)
    }
    fn copy(&self) -> Box<dyn Mat> {
        Box::new(self.clone())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone)]
struct Ar<const R: usize, const C: usize, const E: usize>(ArcMatrix<R, C, E>);
unsafe impl<const R: usize, const C: usize, const E: usize> Sync for Ar<R, C, E> {}

impl<const R: usize, const C: usize, const E: usize> Mat for Ar<R, C, E> {
    fn kind(&self) -> &'static str {
        "arc"
    }
    fn dims(&self) -> (usize, usize) {
        (R, C)
    }
    #[inline(never)]
    fn op(&self, op: MatOp, rhs: &dyn Any, s: Fq, i: usize, j: usize, out: &mut [Fq]) -> Status {
        let m = &self.0;
        let r = rhs.downcast_ref::<Self>().map(|r| &r.0);
        match op {
            MatOp::Elements => Status::Ok(put(out, m.elements())),
            MatOp::Get => Status::Ok(put(out, &[m.get_element(i, j)])),
            MatOp::Transpose => Status::Ok(put(out, m.transpose().elements())),
            MatOp::Hadamard => had(m, r.unwrap(), out),
            MatOp::IterRows => iter_rows(m, out),
            MatOp::Dims => dims(m, out),
            MatOp::SetCopy => set_copy(m, i, j, s, out),
            MatOp::CloneEq => clone_eq(m, i, j, s, out),
            MatOp::Inner => Status::Ok(put(out, &m.inner_elements())),
            MatOp::Rebuild => {
                let a: [Fq; E] = m.elements().try_into().unwrap();
                let k = ArcMatrix::<R, C, E>::new_from_known(a);
                if k != *m {
                    return Status::OtherError;
                }
                rebuild(m, out)
            }
            _ => Status::Absent,
        }
    }
    #[inline(never)]
    fn set(&mut self, i: usize, j: usize, v: Fq) {
        self.0.set_element(i, j, v)
    }
    fn copy(&self) -> Box<dyn Mat> {
        Box::new(self.clone())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone)]
struct Oa<const R: usize, const C: usize, const E: usize>(OptimizedArcMatrix<R, C, E>);
unsafe impl<const R: usize, const C: usize, const E: usize> Sync for Oa<R, C, E> {}

impl<const R: usize, const C: usize, const E: usize> Mat for Oa<R, C, E> {
    fn kind(&self) -> &'static str {
        "optarc"
    }
    fn dims(&self) -> (usize, usize) {
        (R, C)
    }
    #[inline(never)]
    fn op(&self, op: MatOp, rhs: &dyn Any, s: Fq, i: usize, j: usize, out: &mut [Fq]) -> Status {
        let m = &self.0;
        let r = rhs.downcast_ref::<Self>().map(|r| &r.0);
        match op {
            MatOp::Elements => Status::Ok(put(out, m.elements())),
            MatOp::Get => Status::Ok(put(out, &[m.get_element(i, j)])),
            MatOp::Transpose => Status::Ok(put(out, m.transpose().elements())),
            MatOp::Hadamard => had(m, r.unwrap(), out),
            MatOp::IterRows => iter_rows(m, out),
            MatOp::Dims => dims(m, out),
            MatOp::SetCopy => set_copy(m, i, j, s, out),
            MatOp::CloneEq => clone_eq(m, i, j, s, out),
            MatOp::Rebuild => {
                let a: [Fq; E] = m.elements().try_into().unwrap();
                let k = OptimizedArcMatrix::<R, C, E>::new_from_known(a);
                if k != *m {
                    return Status::OtherError;
                }
                rebuild(m, out)
            }
            _ => Status::Absent,
        }
    }
    #[inline(never)]
    fn set(&mut self, i: usize, j: usize, v: Fq) {
        self.0.set_element(i, j, v)
    }
    fn copy(&self) -> Box<dyn Mat> {
        Box::new(self.clone())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

/// Shapes of the matrix pool: (kind, rows, cols).
pub const SHAPES: [(&str, usize, usize); 36] = [
    ("square", 1, 1), ("square", 2, 2), ("square", 3, 3), ("square", 4, 4),
    ("square", 5, 5), ("square", 6, 6), ("square", 7, 7), ("square", 8, 8),
    ("rect", 1, 4), ("rect", 4, 1), ("rect", 2, 3), ("rect", 3, 2), ("rect", 3, 5), ("rect", 5, 3),
    ("rect", 1, 1), ("rect", 2, 7), ("rect", 7, 2), ("rect", 4, 4),
    ("mds", 2, 2), ("mds", 3, 3), ("mds", 4, 4), ("mds", 5, 5), ("mds", 6, 6), ("mds", 7, 7),
    ("mds", 8, 8), ("mds", 9, 9),
    ("arc", 2, 3), ("arc", 6, 4), ("arc", 3, 1), ("arc", 1, 5),
    ("optarc", 2, 3), ("optarc", 6, 4), ("optarc", 5, 2),
    ("square", 9, 9), ("square", 12, 12), ("rect", 9, 11),
];

pub fn make(shape: usize, e: &[Fq]) -> Box<dyn Mat> {
    macro_rules! sq { ($n:literal, $e:literal) => { Box::new(Sq::<$n, $e>(SquareMatrix::new(e))) }; }
    macro_rules! re { ($r:literal, $c:literal, $e:literal, $rr:literal) => { Box::new(Re::<$r, $c, $e, $rr, { 5 * $r }, { 5 * $c }>(Matrix::new(e))) }; }
    macro_rules! md { ($n:literal, $n1:literal, $e:literal, $e1:literal) => { Box::new(Md::<$n, $n1, $e, $e1>(MdsMatrix::new(e))) }; }
    macro_rules! ar { ($r:literal, $c:literal, $e:literal) => { Box::new(Ar::<$r, $c, $e>(ArcMatrix::new(e))) }; }
    macro_rules! oa { ($r:literal, $c:literal, $e:literal) => { Box::new(Oa::<$r, $c, $e>(OptimizedArcMatrix::new(e))) }; }
    match shape {
        0 => sq!(1, 1), 1 => sq!(2, 4), 2 => sq!(3, 9), 3 => sq!(4, 16),
        4 => sq!(5, 25), 5 => sq!(6, 36), 6 => sq!(7, 49), 7 => sq!(8, 64),
        8 => re!(1, 4, 4, 1), 9 => re!(4, 1, 4, 16), 10 => re!(2, 3, 6, 4), 11 => re!(3, 2, 6, 9),
        12 => re!(3, 5, 15, 9), 13 => re!(5, 3, 15, 25), 14 => re!(1, 1, 1, 1), 15 => re!(2, 7, 14, 4),
        16 => re!(7, 2, 14, 49), 17 => re!(4, 4, 16, 16),
        18 => md!(2, 1, 4, 1), 19 => md!(3, 2, 9, 4), 20 => md!(4, 3, 16, 9), 21 => md!(5, 4, 25, 16),
        22 => md!(6, 5, 36, 25), 23 => md!(7, 6, 49, 36), 24 => md!(8, 7, 64, 49), 25 => md!(9, 8, 81, 64),
        26 => ar!(2, 3, 6), 27 => ar!(6, 4, 24), 28 => ar!(3, 1, 3), 29 => ar!(1, 5, 5),
        30 => oa!(2, 3, 6), 31 => oa!(6, 4, 24), 32 => oa!(5, 2, 10),
        33 => sq!(9, 81), 34 => sq!(12, 144), 35 => re!(9, 11, 99, 81),
        _ => unreachable!(),
    }
}

pub fn new_2x2(a: Fq, b: Fq, c: Fq, d: Fq, out: &mut [Fq]) {
    put(out, SquareMatrix::<2, 4>::new_2x2(a, b, c, d).elements());
}
