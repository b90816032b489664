//! Large configurations, run on the real code only (a bounded conformance run, never counted as
//! proved): their purpose is to find an input when the program verifier no longer discharges an
//! obligation that is generic in the dimensions.  All entries derive from two values.
use crate::plat::Ctx;
use crate::props::{arr, flat, hashes, job, spec, vars, vec2, Job};
use decaf377::Fq;
use poseidon_parameters::v1::*;

fn tall<const R: usize, const C: usize, const N: usize>(ctx: &mut Ctx) {
    ctx.derive();
    let a = vars(ctx, "a", N);
    let at = |m: &Matrix<R, C, N>, i: usize, j: usize| m.get_element(i, j);
    let Some(mut m) = ctx.attempt("Matrix::new/no-panic", || Box::new(Matrix::<R, C, N>::new(&a))) else { return };
    ctx.ok("Matrix::new/elements", m.elements() == &a[..]);
    ctx.ok("n_rows, n_cols", m.n_rows() == R && m.n_cols() == C);
    if let Some(ok) = ctx.attempt("get_element/no-panic", || (0..N).all(|k| at(&m, k / C, k % C) == a[k])) {
        ctx.ok("get_element", ok);
    }
    if let Some(t) = ctx.attempt("transpose/no-panic", || Box::new(m.transpose())) {
        ctx.ok("transpose", (0..N).all(|k| t.elements()[(k % C) * R + k / C] == a[k]));
    }
    if let Some(ok) = ctx.attempt("iter_rows/no-panic", || {
        m.iter_rows().count() == R && m.iter_rows().enumerate().all(|(i, r)| r == &a[i * C..(i + 1) * C])
    }) {
        ctx.ok("iter_rows", ok);
    }
    if let Some(h) = ctx.attempt("hadamard_product/no-panic", || Box::new(m.hadamard_product(&m).unwrap())) {
        ctx.ok("hadamard_product", (0..N).all(|k| h.elements()[k] == a[k] * a[k]));
    }
    if let Some(h) = ctx.attempt("mul/no-panic", || Box::new((*m).clone() * a[0])) {
        ctx.ok("mul by a scalar", (0..N).all(|k| h.elements()[k] == a[k] * a[0]));
    }
    for i in [0, R / 2, R - 1] {
        if let Some(r) = ctx.attempt("row_vector/no-panic", || m.row_vector(i)) {
            ctx.ok("row_vector", r.elements() == &a[i * C..(i + 1) * C]);
        }
    }
    let x = ctx.var("set");
    let mut want = a.clone();
    for (i, j) in [(0, 0), (R - 1, C - 1), (R / 2, C / 3), (R - 1, 0), (0, C - 1)] {
        want[i * C + j] = x;
        if ctx.attempt("set_element/no-panic", || m.set_element(i, j, x)).is_some() {
            ctx.ok("set_element writes one element", m.elements() == &want[..]);
        }
    }
}
fn product<const A: usize, const B: usize, const C: usize, const AB: usize, const BC: usize, const AC: usize>(ctx: &mut Ctx) {
    ctx.derive();
    let (a, b) = (vec2(ctx, "a", A, B), vec2(ctx, "b", B, C));
    let (ma, mb) = (Box::new(Matrix::<A, B, AB>::new(&flat(&a))), Box::new(Matrix::<B, C, BC>::new(&flat(&b))));
    if let Some(p) = ctx.attempt("mat_mul/no-panic", || Box::new(mat_mul::<A, B, AB, B, C, BC, AC>(&ma, &mb))) {
        ctx.ok("mat_mul", p.elements() == &flat(&spec::mat_mul(&a, &b))[..]);
    }
}
fn square_product<const A: usize, const AA: usize>(ctx: &mut Ctx) {
    ctx.derive();
    let (a, b) = (vec2(ctx, "a", A, A), vec2(ctx, "b", A, A));
    let (ma, mb) = (Box::new(SquareMatrix::<A, AA>::new(&flat(&a))), Box::new(SquareMatrix::<A, AA>::new(&flat(&b))));
    if let Some(p) = ctx.attempt("square_mat_mul/no-panic", || Box::new(square_mat_mul::<A, AA, A, AA, AA>(&ma, &mb))) {
        ctx.ok("square_mat_mul", p.elements() == &flat(&spec::mat_mul(&a, &b))[..]);
    }
    if let Some(t) = ctx.attempt("SquareMatrix::transpose/no-panic", || Box::new(ma.transpose())) {
        ctx.ok("SquareMatrix::transpose", (0..AA).all(|k| t.elements()[(k % A) * A + k / A] == a[k / A][k % A]));
    }
    if let Some(i) = ctx.attempt("identity/no-panic", || Box::new(SquareMatrix::<A, AA>::identity())) {
        ctx.ok("identity", (0..AA).all(|k| i.elements()[k] == Fq::from((k / A == k % A) as u64)));
    }
}
fn views<const T: usize, const T1: usize, const TT: usize, const TT1: usize>(ctx: &mut Ctx) {
    ctx.derive();
    let a = vec2(ctx, "a", T, T);
    let Some(m) = ctx.attempt("MdsMatrix::new/no-panic", || Box::new(MdsMatrix::<T, T1, TT, TT1>::new(&flat(&a)))) else { return };
    if let Some(v) = ctx.attempt("v/no-panic", || m.v()) {
        ctx.ok("v", v.elements() == &a[0][1..]);
    }
    if let Some(w) = ctx.attempt("w/no-panic", || m.w()) {
        ctx.ok("w", (1..T).all(|i| w.elements()[i - 1] == a[i][0]));
    }
    if let Some(h) = ctx.attempt("hat/no-panic", || Box::new(m.hat())) {
        ctx.ok("hat", (0..TT1).all(|k| h.elements()[k] == a[1 + k / T1][1 + k % T1]));
    }
    if let Some(t) = ctx.attempt("transpose/no-panic", || Box::new(m.transpose())) {
        ctx.ok("transpose", (0..TT).all(|k| t.elements()[(k % T) * T + k / T] == a[k / T][k % T]));
        if let (Some(v), Some(w)) = (ctx.attempt("v/no-panic", || t.v()), ctx.attempt("w/no-panic", || t.w())) {
            ctx.ok("transposition swaps v and w", m.v().elements() == w.elements() && m.w().elements() == v.elements());
        }
    }
}
/// An instance hashes many times: every result is that of a fresh instance.
fn history(ctx: &mut Ctx, calls: usize) {
    ctx.derive();
    let p = &poseidon377::RATE_1_PARAMS;
    let mut i = poseidon_permutation::Instance::new(p);
    for n in 0..calls {
        let x = arr::<2>(&vars(ctx, &format!("x{}_", n % 300), 2));
        // long histories: first mostly optimised hashes, then mostly unoptimised ones
        let opt = if calls < 1000 { n % 3 != 1 } else { (n % 256 == 255) != (n < calls / 2) };
        let run = |i: &mut poseidon_permutation::Instance<2, 1, 4, 1, 39, 2, 78, 31>| {
            let h = if opt { i.n_to_1_fixed_hash(&x) } else { i.unoptimized_n_to_1_fixed_hash(x) };
            (h, i.output_words())
        };
        let got = ctx.attempt("no-panic", || run(&mut i));
        // in a long history only some results are compared
        if calls < 1000 || n % 256 < 2 || n + 1000 > calls {
            let want = ctx.attempt("no-panic", || run(&mut poseidon_permutation::Instance::new(p)));
            ctx.ok(&format!("call {n} equals a fresh instance's"), got == want);
        }
    }
}
/// Many calls of a crate-level hash in one process.
fn calls(ctx: &mut Ctx) {
    ctx.derive();
    let p = spec::published(2);
    let x: Vec<Vec<Fq>> = (0..64).map(|n| vars(ctx, &format!("x{n}_"), 2)).collect();
    let want: Vec<Fq> = x.iter().map(|x| spec::permute(&p, x).unwrap()[1]).collect();
    for n in 0..70_000 {
        let (x, w) = (&x[n % 64], want[n % 64]);
        let h = ctx.try_run(|| hashes::native(1, &x[0], &x[1..]));
        ctx.ok(&format!("call {n} == Poseidon(domain, input)[1]"), h == Some(w));
    }
}
#[cfg(not(feature = "min"))]
mod busy {
use super::*;
use crate::props::circuit;
use ark_r1cs_std::prelude::*;
use ark_r1cs_std::R1CSVar;
use ark_relations::lc;
use ark_relations::r1cs::{ConstraintSystem, OptimizationGoal, SynthesisError, SynthesisMode, Variable};
use decaf377::r1cs::FqVar;
/// Many hashes of every rate in one constraint system: each output is the native hash, the honest
/// assignment satisfies everything, key setup has the same shape, and every satisfying assignment's outputs are the native hashes.
pub fn busy_circuit(ctx: &mut Ctx, n: usize, first: usize) {
    ctx.derive();
    let x = vars(ctx, "x", 8);
    let run = |setup: bool| -> Result<_, SynthesisError> {
        let cs = ConstraintSystem::<Fq>::new_ref();
        cs.set_optimization_goal(OptimizationGoal::None);
        cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
        let get = |v: Fq| move || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(v) };
        let mut ops = vec![];
        for (i, v) in x.iter().enumerate() {
            ops.push(if i % 3 == 1 { FqVar::new_input(cs.clone(), get(*v))? } else { FqVar::new_witness(cs.clone(), get(*v))? });
        }
        let mut out = vec![];
        let mut probes = vec![];
        for i in 0..n + 7 {
            let k = if i < n { first } else { i - n + 1 };
            let o: Vec<FqVar> = (0..=k).map(|j| ops[(i + j * j) % 8].clone()).collect();
            let v: Vec<Fq> = (0..=k).map(|j| x[(i + j * j) % 8]).collect();
            let h = circuit::circuit(k, cs.clone(), &o[0], &o[1..])?;
            if let (FqVar::Var(a), true) = (&h, !setup && i >= n) {
                // a vacuous constraint that shows the output's linear combination
                probes.push((k, i, cs.num_constraints()));
                cs.enforce_constraint(lc!() + a.variable, lc!() + Variable::One, lc!() + a.variable)?;
            } else if i >= n {
                cs.enforce_constraint(lc!(), lc!(), lc!())?;
            }
            if !setup {
                out.push(h.value()? == hashes::native(k, &v[0], &v[1..]));
            }
        }
        cs.finalize();
        let m = cs.to_matrices().expect("matrices");
        let z: Vec<Fq> = {
            let s = cs.borrow().unwrap();
            s.instance_assignment.iter().chain(&s.witness_assignment).cloned().collect()
        };
        Ok((out, m, z, probes))
    };
    let (Some(p), Some(s)) = (ctx.attempt("proving/no-panic", || run(false)), ctx.attempt("setup/no-panic", || run(true))) else { return };
    let (Ok((out, m, z, probes)), Ok((_, t, _, _))) = (p, s) else {
        ctx.ok("synthesis/ensures Ok", false);
        return;
    };
    for (i, ok) in out.iter().enumerate() {
        ctx.ok(&format!("output of hash {i} == native hash"), *ok);
    }
    let eval = |r: &Vec<(Fq, usize)>| r.iter().fold(spec::zero(), |s, (c, i)| s + *c * z[*i]);
    for i in 0..m.a.len() {
        ctx.ok(&format!("honest assignment satisfies constraint {i}"), eval(&m.a[i]) * eval(&m.b[i]) == eval(&m.c[i]));
    }
    let plain = |r: &[Vec<(Fq, usize)>]| -> Vec<Vec<(Fq, usize)>> {
        r.iter().enumerate().filter(|(i, _)| !probes.iter().any(|p| p.2 == *i)).map(|x| x.1.clone()).collect()
    };
    ctx.ok(
        "same constraints as key setup",
        plain(&m.a) == plain(&t.a) && plain(&m.b) == plain(&t.b) && plain(&m.c) == plain(&t.c) && m.num_witness_variables == t.num_witness_variables,
    );
    // every assignment: the operands take other values, the constraints force the rest
    let y = vars(ctx, "y", 8);
    let mut at = (1, m.num_instance_variables);
    let operands: Vec<(usize, Option<Fq>)> = (0..8)
        .map(|i| {
            let p = if i % 3 == 1 { &mut at.0 } else { &mut at.1 };
            *p += 1;
            (*p - 1, Some(y[i]))
        })
        .collect();
    let mut syn = circuit::Synth {
        a: m.a.clone(),
        b: m.b.clone(),
        c: m.c.clone(),
        ninst: m.num_instance_variables,
        nwit: m.num_witness_variables,
        out: Err(spec::zero()),
        out_value: None,
        operands,
        z: z.clone(),
    };
    let forced = circuit::determine(&syn);
    for (k, i, row) in probes.iter() {
        let v: Vec<Fq> = (0..=*k).map(|j| y[(i + j * j) % 8]).collect();
        let want = hashes::native(*k, &v[0], &v[1..]);
        let r = m.a[*row].clone();
        if r.iter().all(|(c, i)| forced[*i].is_some() || *c == spec::zero()) {
            let got = r.iter().fold(spec::zero(), |s, (c, i)| s + *c * forced[*i].unwrap_or(spec::zero()));
            ctx.eq(&format!("every satisfying assignment's output of hash {i} == native hash"), got, want);
        } else {
            syn.out = Ok(r);
            let cheat = circuit::cheat(&syn, want, 7);
            ctx.ok(&format!("every satisfying assignment's output of hash {i} == native hash (search)"), cheat.is_none());
        }
    }
}
}
macro_rules! fol {
    ($t:expr, $tm1:expr, $rf:expr, $rp:expr, $alpha:expr) => {
        job(format!("large t={} r_F={} r_P={} alpha={:?}", $t, $rf, $rp, $alpha), 1, |ctx: &mut Ctx| {
            ctx.derive();
            hashes::follow::<$t, $tm1, { $t * $t }, { $tm1 * $tm1 }, { $rf + $rp }, { ($rf + $rp) * $t }, $rp>(ctx, $rf, $alpha)
        })
    };
}
macro_rules! refused {
    ($ctx:expr, $(($r:expr, $c:expr, $n:expr)),*) => { $( {
        let e = vars($ctx, "e", $n);
        let l = format!("{} x {} matrix of {} elements", $r as usize, $c as usize, $n as usize);
        $ctx.panics(&format!("Matrix::new {l}"), true, || { Matrix::<$r, $c, $n>::new(&e); });
        $ctx.panics(&format!("Matrix::new_from_known {l}"), true, || { Matrix::<$r, $c, $n>::new_from_known(arr::<$n>(&e)); });
        $ctx.panics(&format!("ArcMatrix::new {l}"), true, || { ArcMatrix::<$r, $c, $n>::new(&e); });
    } )* };
}
pub fn jobs(prop: &str) -> Vec<Job> {
    match prop {
        "C01" => vec![job("large: 70000 calls", 1, calls)],
        "C03" => vec![job("large: 700 calls", 1, |ctx| history(ctx, 700)), job("large: 133000 calls", 1, |ctx| history(ctx, 133_000))],
        #[cfg(not(feature = "min"))]
        "C05" | "C06" => vec![
            job("large: 280 rate-1 hashes and one of each rate", 1, |ctx| busy::busy_circuit(ctx, 280, 1)),
            job("large: 40 rate-7 hashes and one of each rate", 1, |ctx| busy::busy_circuit(ctx, 40, 7)),
        ],
        "C07" => vec![
            fol!(2, 1, 4, 270, Alpha::Exponent(3)),
            fol!(2, 1, 520, 2, Alpha::Exponent(5)),
            fol!(2, 1, 8, 70, Alpha::Exponent(65543)),
            fol!(3, 2, 4, 130, Alpha::Inverse),
            fol!(12, 11, 8, 22, Alpha::Exponent(5)),
            fol!(17, 16, 2, 33, Alpha::Exponent(17)),
            fol!(24, 23, 8, 21, Alpha::Exponent(7)),
            fol!(33, 32, 2, 2, Alpha::Exponent(3)),
            fol!(258, 257, 2, 1, Alpha::Exponent(3)),
        ],
        "C08" => vec![
            job("large 65540x1", 1, tall::<65540, 1, 65540>),
            job("large 1x65540", 1, tall::<1, 65540, 65540>),
            job("large 300x270", 1, tall::<300, 270, 81000>),
            job("large 257x3 by 3x258", 1, product::<257, 3, 258, 771, 774, 66306>),
            job("large 3x300 by 300x2", 1, product::<3, 300, 2, 900, 600, 6>),
            job("large 70x70 square", 1, square_product::<70, 4900>),
        ],
        "C09" => vec![job("large: dimensions whose product is 0 modulo a power of two", 1, |ctx: &mut Ctx| {
            refused!(ctx, (16, 16, 0), (256, 256, 0), (65536, 65536, 0), (4294967296, 4294967296, 0), (257, 1, 1), (65537, 1, 1),
                (4294967297, 1, 1), (1, 4294967298, 2));
        })],
        "C12" => vec![
            job("large views width 20", 1, views::<20, 19, 400, 361>),
            job("large views width 33", 1, views::<33, 32, 1089, 1024>),
            job("large views width 260", 1, views::<260, 259, 67600, 67081>),
        ],
        _ => vec![],
    }
}
