//! Circuit synthesis as a simulated activity: nodes run circuit programs statement by statement
//! in constraint systems of their own, under every mode, interleaved with each other, abandoned,
//! and with the assignment tampered with afterwards.
#![allow(static_mut_refs)]

use crate::kernel::{self, probe};
use crate::ops::*;
use crate::plan::{self, Gen, Plan};
use crate::reference::{self as rf};
use crate::rng::{mix, Rng};
use ark_ff::{Field, One, Zero};
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{
    ConstraintSystem, ConstraintSystemRef, LinearCombination, OptimizationGoal, SynthesisError,
    SynthesisMode, Variable,
};
use poseidon_shim as shim;
use serde::{Deserialize, Serialize};
use shim::{Fq, FqVar};
use std::collections::{BTreeMap, HashMap};

#[path = "cluster.rs"]
pub mod cluster;

pub const NONE: u32 = u32::MAX;

/// A statement of a circuit program; statement k defines at most one variable, named k.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Stmt {
    Witness { slot: usize },
    Input { slot: usize },
    Const { v: V },
    /// ca*a + cb*b
    Lin { a: u32, b: u32, ca: V, cb: V },
    Mul { a: u32, b: u32 },
    /// hash_{rate}; args[0] is the domain separator
    Hash { rate: usize, args: Vec<u32> },
    /// the permutation gadget of any parameter set
    Gadget { set: usize, args: Vec<u32> },
    /// a public input (or witness) that is enforced equal to `of`
    Out { of: u32, public: bool },
    /// the rest of a large circuit: n further variables and constraints
    Pad { n: u32 },
}
pub type Prog = Vec<Stmt>;

pub fn stmt_kind(s: &Stmt) -> u64 {
    match s {
        Stmt::Witness { slot } => 100 + *slot as u64,
        Stmt::Input { slot } => 200 + *slot as u64,
        Stmt::Const { .. } => 3,
        Stmt::Lin { a, b, .. } => mix(*a as u64 * 64 + *b as u64 + 1),
        Stmt::Mul { a, b } => mix(*a as u64 * 64 + *b as u64 + 2),
        Stmt::Hash { rate, args } => args.iter().fold(*rate as u64 + 1000, |x, a| mix(x ^ *a as u64)),
        Stmt::Gadget { set, args } => args.iter().fold(*set as u64 + 2000, |x, a| mix(x ^ *a as u64)),
        Stmt::Out { of, public } => mix(*of as u64 * 2 + *public as u64 + 3),
        Stmt::Pad { n } => 300 + (*n as u64).ilog2() as u64,
    }
}

/// Removes statement k from a program; whoever used its variable is skipped from now on.
pub fn remove_stmt(p: &Prog, k: usize) -> Prog {
    let f = |x: u32| match x {
        x if x == k as u32 => NONE,
        NONE => NONE,
        x if x > k as u32 => x - 1,
        x => x,
    };
    p.iter()
        .enumerate()
        .filter(|(i, _)| *i != k)
        .map(|(_, s)| match s.clone() {
            Stmt::Lin { a, b, ca, cb } => Stmt::Lin { a: f(a), b: f(b), ca, cb },
            Stmt::Mul { a, b } => Stmt::Mul { a: f(a), b: f(b) },
            Stmt::Hash { rate, args } => Stmt::Hash { rate, args: args.into_iter().map(f).collect() },
            Stmt::Gadget { set, args } => Stmt::Gadget { set, args: args.into_iter().map(f).collect() },
            Stmt::Out { of, public } => Stmt::Out { of: f(of), public },
            s => s,
        })
        .collect()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mode {
    Prove,
    ProveNoMatrices,
    Setup,
    /// no constraint system at all: only constants can be hashed
    Off,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tamper {
    pub kind: u8,
    /// how many variables it touches
    pub n: u8,
    /// solve the remaining witnesses again afterwards
    pub repair: bool,
    pub seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ROp {
    New { cs: usize, prog: usize, mode: Mode, goal: u8, capture: bool, vals: Vec<V> },
    /// the next statement of the program
    Step { cs: usize },
    Finish { cs: usize },
    Abandon { cs: usize },
    /// tampering with the finished assignment of `cs`; `other` holds another assignment
    Tamper { cs: usize, other: usize, list: Vec<Tamper> },
    /// a whole cluster of key-generating, proving and verifying nodes
    Cluster(Box<cluster::Cluster>),
}
impl ROp {
    pub fn name(&self) -> String {
        match self {
            ROp::New { mode, .. } => format!("new constraint system ({mode:?})"),
            ROp::Step { .. } => "synthesis step".into(),
            ROp::Finish { .. } => "finish synthesis".into(),
            ROp::Abandon { .. } => "abandon synthesis".into(),
            ROp::Tamper { list, .. } => format!("tamper x{}", list.len()),
            ROp::Cluster(c) => c.name(),
        }
    }
    pub fn kind(&self) -> u64 {
        match self {
            ROp::New { mode, goal, prog, .. } => {
                1 + match mode {
                    Mode::Prove => 0,
                    Mode::ProveNoMatrices => 1,
                    Mode::Setup => 2,
                    Mode::Off => 3,
                } + 4 * *goal as u64 + 16 * *prog as u64
            }
            ROp::Step { cs } => 100 + *cs as u64,
            ROp::Finish { cs } => 110 + *cs as u64,
            ROp::Abandon { cs } => 120 + *cs as u64,
            ROp::Tamper { list, .. } => list.iter().fold(130, |a, t| mix(a ^ (t.kind as u64 * 8 + t.n as u64 * 2 + t.repair as u64))),
            ROp::Cluster(c) => c.kind(),
        }
    }
    pub fn values(&mut self) -> Vec<&mut V> {
        match self {
            ROp::New { vals, .. } => vals.iter_mut().collect(),
            ROp::Cluster(c) => c.jobs.iter_mut().flat_map(|j| j.vals.iter_mut()).collect(),
            _ => vec![],
        }
    }
}

/// Parameter sets a program needs.
pub fn sets_of(p: &Prog) -> Vec<usize> {
    p.iter().filter_map(|s| if let Stmt::Gadget { set, .. } = s { Some(*set) } else { None }).collect()
}

pub const NCS: usize = 4;

struct HashRec {
    /// rate (1..7) for hash_{rate}, or parameter set
    rate: Option<usize>,
    set: usize,
    args: Vec<usize>,
    out: usize,
    from: (usize, usize, usize),
    to: (usize, usize, usize),
}

struct Ctx {
    cs: ConstraintSystemRef<Fq>,
    prog: usize,
    mode: Mode,
    goal: u8,
    capture: bool,
    vals: Vec<Fq>,
    pc: usize,
    vars: Vec<Option<FqVar>>,
    model: Vec<Option<Fq>>,
    hashes: Vec<HashRec>,
    /// variables allocated by Witness and Input statements
    given: Vec<Variable>,
    /// filler variables
    fill: Vec<Variable>,
    /// every variable allocated by a statement
    allocs: Vec<(usize, Variable)>,
    dead: bool,
    /// a step failed to take place (was skipped by shrinking): not comparable
    fin: Option<Fin2>,
}

/// What stays of a finished prover, for tampering.
struct Fin2 {
    rows: Rows,
    z: Vec<Fq>,
    n_inst: usize,
    claims: Vec<Claim>,
    given: Vec<usize>,
    fill: Vec<usize>,
}
type Lf = Vec<(Fq, usize)>;
struct Claim {
    rate: Option<usize>,
    set: usize,
    args: Vec<Lf>,
    out: Lf,
}
struct Rows {
    abc: Vec<[Lf; 3]>,
    /// number of rows that are constraints (the rest are captured forms)
    n: usize,
    /// rows in which each variable occurs
    occ: Vec<Vec<u32>>,
    vars: Vec<Vec<u32>>,
}

/// The shape of a finished synthesis.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Shape {
    pub prog: usize,
    pub goal: u8,
    pub capture: bool,
    pub complete: bool,
    pub matrices: bool,
    pub counts: (usize, usize, usize),
    pub rows: Vec<u64>,
    /// canonical form of each hash call: (what was called how, hash of its constraints)
    pub spans: Vec<(String, u64)>,
}

#[derive(Clone, Debug, Default)]
pub struct RRes {
    pub viol: Option<String>,
    pub shape: Option<Shape>,
}

static mut CTX: Vec<Vec<Option<Box<Ctx>>>> = Vec::new();
static mut PROGS: Vec<Prog> = Vec::new();
static mut GOLDEN: Vec<Shape> = Vec::new();
/// whether the shapes of syntheses are compared with each other
pub static mut SHAPES: bool = false;

pub fn setup(progs: &[Prog], threads: usize, golden: Vec<Shape>) {
    unsafe {
        PROGS = progs.to_vec();
        CTX = (0..threads.max(1)).map(|_| (0..NCS).map(|_| None).collect()).collect();
        GOLDEN = golden;
    }
}

fn native(rate: Option<usize>, set: usize, x: &[Fq]) -> Fq {
    match rate {
        Some(r) => shim::hash(r, &x[0], &x[1..]),
        None => {
            let mut w = [Fq::default(); 16];
            set_of(set).fresh(true, x, &mut w)
        }
    }
}

fn hx(x: &Fq) -> String {
    v_of(x).hex()
}

fn counts(cs: &ConstraintSystemRef<Fq>) -> (usize, usize, usize) {
    (cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints())
}

type Lib<'a> = &'a mut dyn FnMut(&mut dyn FnMut()) -> bool;

fn direct(v: &FqVar) -> Option<Variable> {
    match v {
        FqVar::Var(a) => match a.variable {
            Variable::SymbolicLc(_) => None,
            x => Some(x),
        },
        FqVar::Constant(_) => None,
    }
}

/// One statement. Err(message) is a violation.
fn step(c: &mut Ctx, lib: Lib, vals_out: &mut Vec<Fq>) -> Result<RStat, String> {
    let Some(s) = (unsafe { PROGS.get(c.prog).and_then(|p| p.get(c.pc)).cloned() }) else { return Ok(RStat::Skipped) };
    let k = c.pc;
    c.pc += 1;
    c.vars.push(None);
    c.model.push(None);
    if c.dead {
        return Ok(RStat::Skipped);
    }
    let setup = c.mode == Mode::Setup;
    let off = c.mode == Mode::Off;
    let get = |c: &Ctx, i: u32| -> Option<(FqVar, Option<Fq>)> {
        if i == NONE { None } else { c.vars.get(i as usize).and_then(|v| v.clone()).map(|v| (v, c.model[i as usize])) }
    };
    let err = |what: &str, e: SynthesisError| format!("synthesis-error: {what} failed: {e}");
    match s {
        Stmt::Witness { slot } | Stmt::Input { slot } => {
            if off {
                return Ok(RStat::Skipped);
            }
            let v = c.vals[slot % c.vals.len()];
            let f = || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(v) };
            let x = if matches!(s, Stmt::Witness { .. }) { FqVar::new_witness(c.cs.clone(), f) } else { FqVar::new_input(c.cs.clone(), f) }
                .map_err(|e| format!("synthesis-error: allocation failed: {e}"))?;
            c.given.extend(direct(&x));
            c.allocs.extend(direct(&x).map(|v| (k, v)));
            c.vars[k] = Some(x);
            c.model[k] = Some(v);
        }
        Stmt::Const { v } => {
            c.vars[k] = Some(FqVar::new_constant(c.cs.clone(), v.fq()).map_err(|e| format!("synthesis-error: constant: {e}"))?);
            c.model[k] = Some(v.fq());
        }
        Stmt::Lin { a, b, ca, cb } => {
            let (Some((x, mx)), Some((y, my))) = (get(c, a), get(c, b)) else { return Ok(RStat::Skipped) };
            c.vars[k] = Some(x * ca.fq() + y * cb.fq());
            c.model[k] = mx.zip(my).map(|(x, y)| x * ca.fq() + y * cb.fq());
        }
        Stmt::Mul { a, b } => {
            let (Some((x, mx)), Some((y, my))) = (get(c, a), get(c, b)) else { return Ok(RStat::Skipped) };
            c.vars[k] = Some(x * y);
            c.model[k] = mx.zip(my).map(|(x, y)| x * y);
        }
        Stmt::Pad { n } => {
            if off {
                return Ok(RStat::Skipped);
            }
            for i in 0..n {
                let w = c.cs.new_witness_variable(|| Ok(Fq::from((i % 2) as u64))).map_err(|e| format!("synthesis-error: pad: {e}"))?;
                c.cs.enforce_constraint(LinearCombination::from(w), LinearCombination::from(w), LinearCombination::from(w)).map_err(|e| format!("synthesis-error: pad: {e}"))?;
                c.fill.push(w);
            }
        }
        Stmt::Out { of, public } => {
            if off {
                return Ok(RStat::Skipped);
            }
            let Some((x, mx)) = get(c, of) else { return Ok(RStat::Skipped) };
            let f = || if setup { Err(SynthesisError::AssignmentMissing) } else { mx.ok_or(SynthesisError::AssignmentMissing) };
            let o = if public { FqVar::new_input(c.cs.clone(), f) } else { FqVar::new_witness(c.cs.clone(), f) }
                .map_err(|e| format!("synthesis-error: allocation failed: {e}"))?;
            c.allocs.extend(direct(&o).map(|v| (k, v)));
            o.enforce_equal(&x).map_err(|e| err("enforcing the equality of a hash result", e))?;
            c.vars[k] = Some(o);
            c.model[k] = mx;
        }
        Stmt::Hash { .. } | Stmt::Gadget { .. } => {
            let (rate, set, args) = match s {
                Stmt::Hash { rate, args } => (Some(rate), rate - 1, args),
                Stmt::Gadget { set, args } => (None, set, args),
                _ => unreachable!(),
            };
            let xs: Vec<_> = args.iter().filter_map(|a| get(c, *a)).collect();
            if xs.len() != args.len() {
                return Ok(RStat::Skipped);
            }
            let vs: Vec<FqVar> = xs.iter().map(|x| x.0.clone()).collect();
            let from = counts(&c.cs);
            let mut r: Option<Result<FqVar, SynthesisError>> = None;
            let cs = c.cs.clone();
            probe(4);
            let ok = lib(&mut || {
                r = Some(match rate {
                    Some(n) => shim::hash_r1cs(n, cs.clone(), &vs[0], &vs[1..]),
                    None => Ok(set_of(set).gadget(cs.clone(), &vs)),
                });
            });
            let what = match rate {
                Some(n) => format!("in-circuit hash_{n}"),
                None => format!("in-circuit hash of {}", rf::set(set).name),
            };
            let inverse = rf::set(set).alpha < 0;
            if !ok {
                c.dead = true;
                if inverse {
                    probe(13);
                    return Ok(RStat::Skipped); // documented: not implemented
                }
                return Err(format!("panic: {what} panicked (mode {:?})", c.mode));
            }
            let out = r.unwrap().map_err(|e| format!("synthesis-error: {what} failed: {e} (mode {:?})", c.mode))?;
            if inverse {
                // not specified further
                c.dead = true;
                return Ok(RStat::Skipped);
            }
            let ms: Vec<Option<Fq>> = xs.iter().map(|x| x.1).collect();
            if ms.iter().all(|m| m.is_some()) {
                let ms: Vec<Fq> = ms.into_iter().flatten().collect();
                let want = native(rate, set, &ms);
                c.model[k] = Some(want);
                match out.value() {
                    Ok(v) => {
                        vals_out.push(v);
                        if v != want {
                            return Err(format!(
                                "wrong-value: {what} of ({}) is 0x{} instead of 0x{}, the native hash",
                                ms.iter().map(|x| format!("0x{}", hx(x))).collect::<Vec<_>>().join(", "),
                                hx(&v), hx(&want)
                            ));
                        }
                    }
                    Err(_) if setup => {}
                    Err(e) => return Err(format!("wrong-value: the result of {what} has no value: {e}")),
                }
            }
            c.hashes.push(HashRec { rate, set, args: args.iter().map(|a| *a as usize).collect(), out: k, from, to: counts(&c.cs) });
            c.vars[k] = Some(out);
        }
    }
    Ok(RStat::Done)
}

fn h(x: u64, y: u64) -> u64 {
    mix(x.rotate_left(23) ^ y)
}
fn hf(x: &Fq) -> u64 {
    x.to_bytes().chunks(8).fold(7, |a, c| h(a, u64::from_le_bytes(c.try_into().unwrap())))
}
fn hrow(l: &Lf, name: impl Fn(usize) -> u64) -> u64 {
    let mut v: Vec<(u64, u64)> = l.iter().map(|(c, i)| (name(*i), hf(c))).collect();
    v.sort();
    v.iter().fold(11, |a, (n, c)| h(h(a, *n), *c))
}

fn merge_terms(l: &[(Fq, usize)]) -> Lf {
    let mut m: BTreeMap<usize, Fq> = BTreeMap::new();
    for (c, i) in l {
        *m.entry(*i).or_insert_with(Fq::zero) += *c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).map(|(i, c)| (c, i)).collect()
}

fn rows_of(abc: Vec<[Lf; 3]>, n: usize, n_vars: usize) -> Rows {
    let mut vars: Vec<Vec<u32>> = vec![];
    let mut occ: Vec<Vec<u32>> = vec![vec![]; n_vars];
    for (i, r) in abc.iter().enumerate().take(n) {
        let mut v: Vec<u32> = r.iter().flatten().map(|t| t.1 as u32).collect();
        v.sort();
        v.dedup();
        for x in &v {
            occ[*x as usize].push(i as u32);
        }
        vars.push(v);
    }
    Rows { abc, n, occ, vars }
}

fn finish(c: &mut Ctx) -> Result<Shape, String> {
    let complete = unsafe { c.pc >= PROGS[c.prog].len() } && !c.dead;
    let mut base = counts(&c.cs);
    let capture = c.capture && c.goal < 2 && matches!(c.mode, Mode::Prove);
    let mut claims: Vec<Claim> = vec![];
    let mut pending: Vec<(usize, Option<usize>, usize)> = vec![]; // claim, arg or out, row
    if capture {
        for hr in &c.hashes {
            let n = claims.len();
            let mut cl = Claim { rate: hr.rate, set: hr.set, args: vec![vec![]; hr.args.len()], out: vec![] };
            for (i, a) in hr.args.iter().map(|a| (*a, ())).enumerate().map(|(i, (a, _))| (Some(i), a)).chain([(None, hr.out)]) {
                match c.vars[a].as_ref().unwrap() {
                    FqVar::Constant(k) => {
                        let l = vec![(*k, 0usize)];
                        match i {
                            Some(i) => cl.args[i] = l,
                            None => cl.out = l,
                        }
                    }
                    FqVar::Var(v) => {
                        pending.push((n, i, c.cs.num_constraints()));
                        c.cs.enforce_constraint(
                            LinearCombination::from(v.variable),
                            LinearCombination::zero(),
                            LinearCombination::zero(),
                        )
                        .map_err(|e| format!("synthesis-error: capture: {e}"))?;
                    }
                }
            }
            claims.push(cl);
        }
    }
    c.cs.finalize();
    let matrices = c.cs.to_matrices();
    let n_con = base.2;
    let end = counts(&c.cs);
    if c.goal == 2 {
        base = end;
    }
    let mut shape = Shape {
        prog: c.prog,
        goal: c.goal,
        capture: false,
        complete,
        matrices: matrices.is_some(),
        counts: (base.0, base.1, base.2),
        rows: vec![],
        spans: vec![],
    };
    if c.mode == Mode::Off {
        shape.complete = false;
        return Ok(shape);
    }
    if let Some(m) = matrices {
        let mut abc: Vec<[Lf; 3]> = vec![];
        for i in 0..m.a.len() {
            abc.push([merge_terms(&m.a[i]), merge_terms(&m.b[i]), merge_terms(&m.c[i])]);
        }
        let n_rows = if c.goal == 2 { abc.len() } else { n_con };
        for r in &abc[..n_rows] {
            shape.rows.push(r.iter().fold(3, |a, l| h(a, hrow(l, |i| i as u64))));
        }
        // each hash call, independent of where it is
        if c.goal < 2 {
            let ni = base.0;
            for hr in &c.hashes {
                let mut names: HashMap<usize, u64> = HashMap::new();
                let mut key = format!("{:?}/{}", hr.rate, hr.set);
                let mut plain = true;
                for (i, a) in hr.args.iter().enumerate() {
                    match c.vars[*a].as_ref().unwrap() {
                        FqVar::Constant(k) => key += &format!(" const {}", hx(k)),
                        v => match direct(v).and_then(|x| x.get_index_unchecked(ni)) {
                            Some(ix) if ix > 0 => {
                                let n = *names.entry(ix).or_insert(1000 + i as u64);
                                key += &format!(" var {n}");
                            }
                            _ => plain = false,
                        },
                    }
                }
                if !plain {
                    continue;
                }
                let (w0, w1) = (hr.from.1 + ni, hr.to.1 + ni);
                let name = |i: usize| {
                    if i == 0 {
                        1
                    } else if let Some(n) = names.get(&i) {
                        *n
                    } else if i >= w0 && i < w1 {
                        10_000 + (i - w0) as u64
                    } else {
                        // depends on something that is not its own
                        1_000_000 + i as u64
                    }
                };
                let mut d = h(hr.to.2 as u64 - hr.from.2 as u64, (w1 - w0) as u64);
                d = h(d, (hr.to.0 - hr.from.0) as u64);
                for r in &abc[hr.from.2.min(abc.len())..hr.to.2.min(abc.len())] {
                    d = r.iter().fold(d, |a, l| h(a, hrow(l, name)));
                }
                shape.spans.push((key, d));
            }
        }
        if c.mode == Mode::Prove {
            let b = c.cs.borrow().unwrap();
            let mut z = b.instance_assignment.clone();
            let n_inst = z.len();
            z.extend_from_slice(&b.witness_assignment);
            if z.len() != m.num_instance_variables + m.num_witness_variables {
                return Err("synthesis-error: the assignment's length does not match the constraint system".into());
            }
            probe(6);
            for (n, which, row) in pending {
                let l = abc[row][0].clone();
                match which {
                    Some(i) => claims[n].args[i] = l,
                    None => claims[n].out = l,
                }
            }
            let given = c.given.iter().filter_map(|v| v.get_index_unchecked(n_inst)).collect();
            let fill = c.fill.iter().filter_map(|v| v.get_index_unchecked(n_inst)).collect();
            let f = Fin2 { rows: rows_of(abc, n_rows, z.len()), z, n_inst, claims, given, fill };
            if !c.dead {
                if let Some(i) = unsat(&f.rows, &f.z) {
                    return Err(format!("unsatisfied: constraint {i} of {n_rows} fails under the honest assignment"));
                }
            }
            if capture {
                c.fin = Some(f);
            }
        }
    }
    Ok(shape)
}

fn dot(l: &Lf, z: &[Fq]) -> Fq {
    l.iter().map(|(c, i)| if c.is_one() { z[*i] } else { *c * z[*i] }).sum()
}
fn row_ok(r: &[Lf; 3], z: &[Fq]) -> bool {
    dot(&r[0], z) * dot(&r[1], z) == dot(&r[2], z)
}
fn unsat(rows: &Rows, z: &[Fq]) -> Option<usize> {
    (0..rows.n).find(|i| !row_ok(&rows.abc[*i], z))
}

fn root_of(r: &mut Rng) -> Fq {
    // an element of small order
    use ark_ff::FftField;
    let k = r.range(1, 6);
    rf::F::get_root_of_unity(1 << k).map(|x| V::of(&x).fq()).unwrap_or(-Fq::one())
}

fn sqrt(x: &Fq) -> Option<Fq> {
    v_of(x).f().sqrt().map(|r| V::of(&r).fq())
}

/// Completes an assignment: `known` variables stay, everything else is solved for, constraint by
/// constraint; what no constraint determines is guessed. None: a constraint cannot be satisfied.
fn solve(f: &Fin2, z: &mut [Fq], known: &mut [bool], r: &mut Rng) -> Option<()> {
    let rows = &f.rows;
    let mut cnt: Vec<u32> = rows.vars.iter().map(|v| v.iter().filter(|x| !known[**x as usize]).count() as u32).collect();
    let mut queue: Vec<u32> = (0..rows.n as u32).filter(|i| cnt[*i as usize] <= 1).collect();
    queue.reverse();
    let style = r.below(4);
    let mut set = |u: usize, v: Fq, z: &mut [Fq], known: &mut [bool], queue: &mut Vec<u32>, cnt: &mut [u32]| {
        z[u] = v;
        known[u] = true;
        for i in &rows.occ[u] {
            cnt[*i as usize] -= 1;
            if cnt[*i as usize] <= 1 {
                queue.push(*i);
            }
        }
    };
    let mut next_guess = 0usize;
    loop {
        while let Some(i) = queue.pop() {
            let row = &rows.abc[i as usize];
            match cnt[i as usize] {
                0 => {
                    if !row_ok(row, z) {
                        return None;
                    }
                }
                1 => {
                    probe(9);
                    let u = *rows.vars[i as usize].iter().find(|x| !known[**x as usize]).unwrap() as usize;
                    let part = |l: &Lf| -> (Fq, Fq) {
                        let mut k = Fq::zero();
                        let mut c = Fq::zero();
                        for (a, x) in l {
                            if *x == u {
                                c = *a;
                            } else {
                                k += *a * z[*x];
                            }
                        }
                        (k, c)
                    };
                    let ((a0, a1), (b0, b1), (c0, c1)) = (part(&row[0]), part(&row[1]), part(&row[2]));
                    let (q, l, k) = (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
                    let v = if q.is_zero() {
                        if l.is_zero() {
                            if k.is_zero() {
                                continue; // no constraint on u after all
                            }
                            return None;
                        }
                        -k * l.inverse().unwrap()
                    } else {
                        let s = sqrt(&(l * l - Fq::from(4u64) * q * k))?;
                        let s = if r.chance(1, 2) { s } else { -s };
                        (s - l) * (q + q).inverse().unwrap()
                    };
                    set(u, v, z, known, &mut queue, &mut cnt);
                }
                _ => {}
            }
        }
        // something is left open
        while next_guess < z.len() && known[next_guess] {
            next_guess += 1;
        }
        if next_guess == z.len() {
            return Some(());
        }
        let u = next_guess;
        let v = match style {
            0 => Fq::zero(),
            1 => Fq::from(r.below(3)),
            2 => *r.pick(&[z[u], -z[u], z[u] + Fq::one(), Fq::zero()]),
            _ => V::of(&r.f()).fq(),
        };
        set(u, v, z, known, &mut queue, &mut cnt);
    }
}

/// The assignment after tampering; false if the repair met a constraint it could not satisfy.
fn tampered(f: &Fin2, other: Option<&Fin2>, t: &Tamper) -> (Vec<Fq>, bool) {
    let mut r = Rng::new(t.seed);
    let mut z = f.z.clone();
    let n = z.len();
    if n < 2 {
        return (z, true);
    }
    let mut pinned = vec![false; n];
    for i in f.given.iter().chain(&f.fill) {
        pinned[*i] = true;
    }
    let free: Vec<usize> = (1..n).filter(|i| !pinned[*i]).collect();
    let pick = |r: &mut Rng| -> usize {
        // prefer the prover's own values; sometimes arguments and public inputs too
        if free.is_empty() || r.chance(1, 8) { 1 + r.idx(n - 1) } else { *r.pick(&free) }
    };
    let mut touched: Vec<usize> = vec![];
    let o = other.filter(|o| o.z.len() == n);
    for _ in 0..t.n.max(1) {
        let i = if t.kind == 13 && !f.given.is_empty() { *r.pick(&f.given) } else { pick(&mut r) };
        let old = z[i];
        z[i] = match t.kind {
            0 => {
                let mut b = v_of(&old);
                let k = r.below(252) as usize;
                b.0[k / 8] ^= 1 << (k % 8);
                b.fq()
            }
            1 => old + Fq::one(),
            2 => -old,
            3 => Fq::zero(),
            4 => old * root_of(&mut r),
            6 => o.map_or(old, |o| o.z[i]),
            8 => {
                let j = pick(&mut r);
                let x = z[j];
                z[j] = old;
                touched.push(j);
                x
            }
            9 => z[pick(&mut r)],
            12 => Fq::one(),
            _ => V::of(&r.f()).fq(),
        };
        touched.push(i);
    }
    match t.kind {
        7 => {
            // torn: a prefix (or suffix) of the witness from the other proof
            if let Some(o) = o {
                let k = 1 + r.idx(n - 1);
                z = f.z.clone();
                if r.chance(1, 2) {
                    z[k..].copy_from_slice(&o.z[k..]);
                } else {
                    z[1..k].copy_from_slice(&o.z[1..k]);
                }
                touched = if r.chance(1, 2) { (1..n).filter(|i| f.given.contains(i)).collect() } else { (k..n).collect() };
            }
        }
        10 => {
            // replay: the whole witness of the other proof with this statement
            if let Some(o) = o {
                z = f.z.clone();
                z[f.n_inst..].copy_from_slice(&o.z[f.n_inst..]);
                touched.clear();
            }
        }
        11 => {
            let k = pick(&mut r);
            let l = r.range(1, 64) as usize;
            for i in k..(k + l).min(n) {
                z[i] = Fq::zero();
                touched.push(i);
            }
        }
        14 => {
            // nothing but the arguments is given
            z = f.z.clone();
            touched.clear();
        }
        _ => {}
    }
    if t.repair {
        let mut known = vec![false; n];
        known[0] = true;
        for i in f.given.iter().chain(&touched).chain(&f.fill) {
            known[*i] = true;
        }
        if solve(f, &mut z, &mut known, &mut r).is_none() {
            return (z, false);
        }
    }
    (z, true)
}

fn tamper(f: &Fin2, other: Option<&Fin2>, t: &Tamper) -> Option<String> {
    let n = f.z.len();
    let (z, solved) = tampered(f, other, t);
    probe(7);
    if t.repair {
        probe(8);
    }
    if n < 2 || !solved || unsat(&f.rows, &z).is_some() {
        return None;
    }
    probe(10);
    for c in &f.claims {
        let xs: Vec<Fq> = c.args.iter().map(|l| dot(l, &z)).collect();
        let got = dot(&c.out, &z);
        let want = native(c.rate, c.set, &xs);
        if got != want {
            let diff: Vec<usize> = (1..n).filter(|i| z[*i] != f.z[*i]).collect();
            return Some(format!(
                "false-claim: an assignment with {} of {} values changed (first: variable {}, 0x{} instead of 0x{}) satisfies all {} constraints, but claims {} of ({}) to be 0x{} instead of 0x{}",
                diff.len(), n - 1, diff.first().copied().unwrap_or(0),
                diff.first().map_or(String::new(), |i| hx(&z[*i])), diff.first().map_or(String::new(), |i| hx(&f.z[*i])),
                f.rows.n,
                c.rate.map_or(rf::set(c.set).name.clone(), |r| format!("hash_{r}")),
                xs.iter().map(|x| format!("0x{}", hx(x))).collect::<Vec<_>>().join(", "), hx(&got), hx(&want)
            ));
        }
    }
    None
}

fn new_ctx(prog: usize, mode: &Mode, goal: u8, capture: bool, vals: &[V]) -> Ctx {
    let cs = if *mode == Mode::Off {
        ConstraintSystemRef::None
    } else {
        let cs = ConstraintSystem::<Fq>::new_ref();
        cs.set_optimization_goal(match goal {
            0 => OptimizationGoal::None,
            1 => OptimizationGoal::Constraints,
            _ => OptimizationGoal::Weight,
        });
        cs.set_mode(match mode {
            Mode::Setup => SynthesisMode::Setup,
            m => SynthesisMode::Prove { construct_matrices: *m == Mode::Prove },
        });
        cs
    };
    probe(0);
    if *mode == Mode::Setup {
        probe(1);
    }
    let mut vals: Vec<Fq> = vals.iter().map(|v| v.fq()).collect();
    if vals.is_empty() {
        vals.push(Fq::zero());
    }
    Ctx {
        cs,
        prog,
        mode: mode.clone(),
        goal,
        capture,
        vals,
        pc: 0,
        vars: vec![],
        model: vec![],
        hashes: vec![],
        given: vec![],
        fill: vec![],
        allocs: vec![],
        dead: false,
        fin: None,
    }
}

pub fn exec(r: &ROp, out: &mut Option<Box<RRes>>, lib: Lib) -> (RStat, Vec<Fq>) {
    let mut res = RRes::default();
    let mut vals = vec![];
    let me = kernel::current();
    let mine = unsafe { &mut CTX[me] };
    let mut st = RStat::Done;
    match r {
        ROp::Cluster(c) => {
            let (v, digest) = cluster::run(c, lib);
            res.viol = v;
            vals.push(Fq::from(digest));
        }
        ROp::New { cs, prog, mode, goal, capture, vals } => {
            mine[*cs] = Some(Box::new(new_ctx(*prog, mode, *goal, *capture, vals)));
        }
        ROp::Step { cs } => match mine[*cs].as_mut() {
            Some(c) => match step(c, lib, &mut vals) {
                Ok(s) => st = s,
                Err(m) => {
                    c.dead = true;
                    res.viol = Some(m)
                }
            },
            None => st = RStat::Skipped,
        },
        ROp::Finish { cs } => match mine[*cs].as_mut() {
            Some(c) if c.fin.is_none() => {
                probe(2);
                match finish(c) {
                    Ok(s) => res.shape = Some(s),
                    Err(m) => res.viol = Some(m),
                }
                if c.fin.is_none() {
                    mine[*cs] = None;
                }
            }
            _ => st = RStat::Skipped,
        },
        ROp::Abandon { cs } => {
            if mine[*cs].take().is_some() {
                probe(3);
            }
        }
        ROp::Tamper { cs, other, list } => {
            let f = mine[*cs].as_ref().and_then(|c| c.fin.as_ref());
            let o = mine[*other].as_ref().filter(|c| Some(c.prog) == mine[*cs].as_ref().map(|c| c.prog)).and_then(|c| c.fin.as_ref());
            match f {
                Some(f) => {
                    for t in list {
                        if let Some(m) = tamper(f, o, t) {
                            res.viol = Some(m);
                            break;
                        }
                    }
                }
                None => st = RStat::Skipped,
            }
        }
    }
    *out = Some(Box::new(res));
    (st, vals)
}

/// In a process of its own: the shape of one program, synthesised alone in setup mode.
pub fn golden(prog: usize, goal: u8) -> Option<Shape> {
    let r = std::panic::catch_unwind(|| {
        let mut c = new_ctx(prog, &Mode::Setup, goal, false, &[]);
        let n = unsafe { PROGS[prog].len() };
        for _ in 0..n {
            let mut v = vec![];
            step(&mut c, &mut |f| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok(), &mut v).ok()?;
        }
        finish(&mut c).ok()
    });
    r.ok().flatten().filter(|s| s.complete)
}

/// Which (program, goal) pairs a plan synthesises.
pub fn goldens(p: &Plan) -> Vec<(usize, u8)> {
    let mut v: Vec<(usize, u8)> = p
        .all()
        .iter()
        .filter_map(|o| if let Op::R(ROp::New { prog, goal, .. }) = &o.op { Some((*prog, *goal)) } else { None })
        .filter(|(k, _)| *k < p.progs.len())
        .collect();
    v.sort();
    v.dedup();
    v
}

pub fn check_history(w: &World, hist: &[u32]) -> Result<(), String> {
    let mut refs: Vec<(String, Shape)> = unsafe { GOLDEN.iter().map(|g| ("the key generator's".to_string(), g.clone())).collect() };
    let mut spans: HashMap<String, (u64, String)> = HashMap::new();
    for g in refs.iter() {
        for (k, d) in &g.1.spans {
            spans.entry(k.clone()).or_insert((*d, g.0.clone()));
        }
    }
    for oid in hist {
        let Some(Op::R(r)) = &w.ops[*oid as usize] else { continue };
        let res = &w.res[*oid as usize];
        let Some(rr) = &res.r else { continue };
        let who = format!("operation {oid} ({}, thread {})", r.name(), res.thread);
        if let Some(v) = &rr.viol {
            let (class, rest) = v.split_once(": ").unwrap_or(("wrong-value", v));
            let note = if res.note.is_empty() { String::new() } else { format!(" [{}]", res.note) };
            return Err(format!("{class}: {who}: {rest}{note}"));
        }
        let Some(s) = &rr.shape else { continue };
        if unsafe { !SHAPES } {
            continue;
        }
        for (k, d) in &s.spans {
            probe(11);
            match spans.get(k) {
                Some((e, by)) if e != d => {
                    return Err(format!("shape: {who}: the constraints of the in-circuit hash ({k}) differ from those of the same call in {by}"));
                }
                Some(_) => {}
                None => {
                    spans.insert(k.clone(), (*d, who.clone()));
                }
            }
        }
        if !s.complete {
            continue;
        }
        // compare with every other synthesis of the program
        let mut have = false;
        for (by, t) in &refs {
            if t.prog != s.prog || t.goal != s.goal {
                continue;
            }
            if s.matrices && t.matrices {
                probe(5);
                have = true;
                if s.counts != t.counts {
                    return Err(format!("shape: {who}: {:?} (inputs, witnesses, constraints) instead of {by} {:?}", s.counts, t.counts));
                }
                if s.rows != t.rows {
                    let i = s.rows.iter().zip(&t.rows).position(|(a, b)| a != b).unwrap_or(0);
                    return Err(format!("shape: {who}: constraint {i} of {} differs from {by}", s.rows.len()));
                }
            } else if s.goal < 2 && s.counts != t.counts {
                return Err(format!("shape: {who}: {:?} (inputs, witnesses, constraints) instead of {by} {:?}", s.counts, t.counts));
            }
        }
        if !have {
            refs.push((format!("those of operation {oid}"), s.clone()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ generation

fn gen_prog(g: &mut Gen, hashes: usize, slots: usize, rate_max: usize, pads: u32) -> Prog {
    if g.r.chance(1, 40) && rate_max == 7 {
        // the circuit the shipped proving key is for
        let mut p: Prog = vec![Stmt::Const { v: g.v.one(&mut g.r) }];
        for i in 0..7 {
            p.push(Stmt::Witness { slot: i });
        }
        for r in 1..=7usize {
            p.push(Stmt::Hash { rate: r, args: (0..=r as u32).collect() });
            let of = p.len() as u32 - 1;
            p.push(Stmt::Out { of, public: true });
        }
        return p;
    }
    let mut p: Prog = vec![];
    let mut vars: Vec<u32> = vec![];
    let const_bias = *g.r.pick(&[0u64, 10, 40, 100]);
    let plain = g.r.chance(1, 3);
    let alloc = |g: &mut Gen, p: &mut Prog| -> u32 {
        let s = if g.r.below(100) < const_bias && g.r.chance(2, 3) {
            Stmt::Const { v: g.v.one(&mut g.r) }
        } else if g.r.chance(1, 4) {
            Stmt::Input { slot: g.r.idx(slots) }
        } else {
            Stmt::Witness { slot: g.r.idx(slots) }
        };
        p.push(s);
        p.len() as u32 - 1
    };
    for _ in 0..g.r.range(1, 4) {
        let k = alloc(g, &mut p);
        vars.push(k);
    }
    if g.r.chance(1, 30) {
        // many public inputs (or many variables), perhaps summed up
        let n = g.r.log(3, if pads > 14 { 9 } else { 5 }) as usize;
        let (inputs, sum) = (g.r.chance(2, 3), g.r.chance(1, 2) && !plain);
        let mut acc = vars[0];
        for _ in 0..n {
            let slot = g.r.idx(slots);
            p.push(if inputs { Stmt::Input { slot } } else { Stmt::Witness { slot } });
            let k = p.len() as u32 - 1;
            vars.push(k);
            if sum {
                p.push(Stmt::Lin { a: acc, b: k, ca: V::small(1), cb: V::small(1 + g.r.below(3)) });
                acc = p.len() as u32 - 1;
            }
        }
        vars.push(acc);
        vars.extend([acc; 3].iter().filter(|_| sum));
    }
    let mut done = 0;
    let pad = g.r.chance(1, if pads > 12 { 30 } else { 8 });
    if pad && g.r.chance(1, 2) {
        p.push(Stmt::Pad { n: g.r.log(4, pads) as u32 });
    }
    while done < hashes {
        if pad && g.r.chance(1, 4) {
            p.push(Stmt::Pad { n: g.r.log(4, pads.min(14) - 2) as u32 });
        }
        match g.r.below(10) {
            0 | 1 => {
                let k = alloc(g, &mut p);
                vars.push(k);
            }
            2 if !plain => {
                let (a, b) = (*g.r.pick(&vars), *g.r.pick(&vars));
                let (ca, cb) = (g.v.one(&mut g.r), g.v.one(&mut g.r));
                p.push(Stmt::Lin { a, b, ca, cb });
                vars.push(p.len() as u32 - 1);
            }
            3 if !plain => {
                let (a, b) = (*g.r.pick(&vars), *g.r.pick(&vars));
                p.push(Stmt::Mul { a, b });
                vars.push(p.len() as u32 - 1);
            }
            _ => {
                let custom = g.r.chance(1, 5);
                let set = loop {
                    let s = if custom { g.set_id() } else { (g.r.idx(7)).min(g.r.idx(7) + 1) };
                    if rf::set(s).t <= rate_max + 1 && (rf::set(s).alpha >= 0 || g.r.chance(1, 4)) {
                        break s;
                    }
                };
                let t = rf::set(set).t;
                let same = g.r.chance(1, 8);
                let first = *g.r.pick(&vars);
                let mut args = vec![];
                for _ in 0..t {
                    let a = if same {
                        first
                    } else if plain && g.r.chance(3, 4) {
                        let k = alloc(g, &mut p);
                        vars.push(k);
                        k
                    } else {
                        *g.r.pick(&vars)
                    };
                    args.push(a);
                }
                if custom || g.r.chance(1, 10) {
                    p.push(Stmt::Gadget { set, args });
                } else {
                    p.push(Stmt::Hash { rate: set + 1, args });
                }
                let of = p.len() as u32 - 1;
                vars.push(of);
                if g.r.chance(1, 2) {
                    let public = g.r.chance(2, 3);
                    p.push(Stmt::Out { of, public });
                }
                done += 1;
            }
        }
    }
    if pad || (pads > 14 && g.r.chance(1, 100)) {
        // a hash once more, with the same arguments, further down a large circuit
        let again: Vec<Stmt> = p.iter().filter(|s| matches!(s, Stmt::Hash { .. } | Stmt::Gadget { .. })).cloned().collect();
        if !again.is_empty() {
            p.push(Stmt::Pad { n: g.r.log(6, pads) as u32 });
            p.push(g.r.pick(&again).clone());
        }
    }
    if pads > 14 && g.r.chance(1, 600) {
        // more hashes in one circuit than 8 bits count
        let (n, rate) = (g.r.range(257, 262), 1);
        for _ in 0..n {
            let args = (0..=rate).map(|_| *g.r.pick(&vars)).collect();
            p.push(Stmt::Hash { rate, args });
        }
        let of = p.len() as u32 - 1;
        p.push(Stmt::Out { of, public: true });
    }
    p
}

/// Values for the slots; sometimes chosen so that a round of some hash meets a special state.
fn gen_vals(g: &mut Gen, p: &Prog, slots: usize) -> Vec<V> {
    let mut v: Vec<V> = match g.r.below(6) {
        0 => vec![V::small(0); slots],
        1 => {
            let x = g.v.one(&mut g.r);
            vec![x; slots]
        }
        _ => (0..slots).map(|_| g.v.one(&mut g.r)).collect(),
    };
    if g.r.chance(1, 2) {
        let hs: Vec<&Stmt> = p.iter().filter(|s| matches!(s, Stmt::Hash { .. } | Stmt::Gadget { .. })).collect();
        let (set, args) = match *g.r.pick(&hs) {
            Stmt::Hash { rate, args } => (rate - 1, args.clone()),
            Stmt::Gadget { set, args } => (*set, args.clone()),
            _ => unreachable!(),
        };
        if g.r.chance(1, 4) {
            // some words special at the first S-box layer, whatever the other arguments are
            let special = plan::edge(&mut g.r).f();
            for (i, a) in args.iter().enumerate() {
                if let Some(Stmt::Witness { slot } | Stmt::Input { slot }) = p.get(*a as usize) {
                    if g.r.chance(1, 2) {
                        v[*slot] = V::of(&(special - rf::set(set).arc[0][i]));
                    }
                }
            }
        } else if let Some(x) = plan::special_input(g, set) {
            for (a, x) in args.iter().zip(x) {
                if let Some(Stmt::Witness { slot } | Stmt::Input { slot }) = p.get(*a as usize) {
                    v[*slot] = x;
                }
            }
        }
    }
    v
}

struct Node {
    ops: Vec<ROp>,
}

fn node(g: &mut Gen, progs: &[Prog], prog: usize, cs: usize, mode: Mode, goal: u8, capture: bool, slots: usize, abandon: bool) -> Node {
    let vals = gen_vals(g, &progs[prog], slots);
    let mut ops = vec![ROp::New { cs, prog, mode, goal, capture, vals }];
    let n = progs[prog].len();
    let stop = if abandon { g.r.idx(n + 1) } else { n };
    for _ in 0..stop {
        ops.push(ROp::Step { cs });
    }
    if abandon {
        if g.r.chance(2, 3) {
            ops.push(ROp::Abandon { cs });
        }
    } else {
        ops.push(ROp::Finish { cs });
    }
    Node { ops }
}

fn mode(g: &mut Gen, w: [u64; 4]) -> Mode {
    match g.r.weighted(&w) {
        0 => Mode::Prove,
        1 => Mode::Setup,
        2 => Mode::ProveNoMatrices,
        _ => Mode::Off,
    }
}

/// Interleaves the nodes of one thread (each keeps its order).
fn interleave(g: &mut Gen, nodes: Vec<Node>) -> Vec<ROp> {
    let seq = g.r.chance(1, 2);
    let mut qs: Vec<std::collections::VecDeque<ROp>> = nodes.into_iter().map(|n| n.ops.into()).collect();
    let mut out = vec![];
    while qs.iter().any(|q| !q.is_empty()) {
        let k = if seq { qs.iter().position(|q| !q.is_empty()).unwrap() } else { g.r.idx(qs.len()) };
        if let Some(o) = qs[k].pop_front() {
            out.push(o);
        }
    }
    out
}

fn push(g: &mut Gen, p: &mut Plan, ops: Vec<ROp>, native: bool) {
    let mut t = vec![];
    for o in ops {
        if native && g.r.chance(1, 20) {
            let rate = 1 + g.r.idx(7);
            let op = g.hash(rate);
            t.push(g.rec(op));
        }
        t.push(g.rec(Op::R(o)));
    }
    p.threads.push(t);
}

pub fn gen(prop: &str, g: &mut Gen) -> Plan {
    let mut p = plan::empty(prop, 0);
    let slots = g.r.range(1, 8) as usize;
    match prop {
        "C05" => {
            let np = g.r.range(1, 3) as usize;
            for _ in 0..np {
                let h = g.r.range(1, 3) as usize;
                let rm = *g.r.pick(&[2usize, 4, 7]);
                let q = gen_prog(g, h, slots.max(7), rm, 17);
                p.progs.push(q);
            }
            let n = if g.r.chance(3, 5) { 1 } else { g.r.range(2, 4) as usize };
            for _ in 0..n {
                let k = g.r.range(1, 3) as usize;
                let nodes = (0..k)
                    .map(|cs| {
                        let m = mode(g, [10, 4, 2, 1]);
                        let goal = *g.r.pick(&[0u8, 1, 1, 2]);
                        let ab = g.r.chance(1, 5);
                        let pr = g.r.idx(np);
                        let progs = p.progs.clone();
                        node(g, &progs, pr, cs, m, goal, false, slots.max(7), ab)
                    })
                    .collect();
                let ops = interleave(g, nodes);
                push(g, &mut p, ops, true);
            }
            p.killed_ok = true;
            p.strat = plan::strat(&mut g.r, [6, 1, 1, 0, 0, 0]);
        }
        "C06" => {
            let np = g.r.range(1, 2) as usize;
            for _ in 0..np {
                let h = g.r.range(1, 3) as usize;
                let rm = *g.r.pick(&[1usize, 2, 4, 7]);
                let q = gen_prog(g, h, slots.max(7), rm, 17);
                p.progs.push(q);
            }
            let n = g.r.range(1, 4) as usize;
            let goal = *g.r.pick(&[0u8, 1, 1, 1, 2]);
            for _ in 0..n {
                let k = if n == 1 { g.r.range(2, 4) } else { g.r.range(1, 2) } as usize;
                let nodes = (0..k)
                    .map(|cs| {
                        let m = mode(g, [8, 4, 2, 0]);
                        let ab = g.r.chance(1, 6);
                        let pr = g.r.idx(np);
                        let progs = p.progs.clone();
                        node(g, &progs, pr, cs, m, goal, false, slots.max(7), ab)
                    })
                    .collect();
                let ops = interleave(g, nodes);
                push(g, &mut p, ops, true);
            }
            p.killed_ok = true;
            p.strat = plan::strat(&mut g.r, [6, 1, 1, 0, 0, 0]);
        }
        _ => {
            let h = if g.r.chance(1, 12) { g.r.range(3, 6) } else { g.r.range(1, 2) } as usize;
            let rm = *g.r.pick(&[1usize, 2, 4, 7, 7]);
            let q = gen_prog(g, h, slots.max(7), rm, 14);
            p.progs.push(q);
            let progs = p.progs.clone();
            let mut ops = vec![];
            for cs in 0..2 {
                ops.extend(node(g, &progs, 0, cs, Mode::Prove, 1, true, slots.max(7), false).ops);
            }
            let mut list = vec![];
            for _ in 0..g.r.range(10, 60) {
                let kind = g.r.below(15) as u8;
                let repair = kind == 14 || (kind != 10 && g.r.chance(1, 2));
                list.push(Tamper { kind, n: if g.r.chance(2, 3) { 1 } else { g.r.range(2, 6) as u8 }, repair, seed: g.r.next() });
            }
            for c in list.chunks(6) {
                ops.push(ROp::Tamper { cs: 0, other: 1, list: c.to_vec() });
            }
            push(g, &mut p, ops, false);
        }
    }
    p
}
