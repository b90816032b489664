//! C05, C06: the in-circuit hash.  The constraint matrices come from the real synthesis; the
//! postconditions speak about every assignment (C05) or the honest one (C06).
use super::hashes::native;
use super::spec;
use super::*;
use crate::plat::Ctx;
use ark_r1cs_std::prelude::*;
use ark_r1cs_std::R1CSVar;
use ark_relations::lc;
use ark_relations::r1cs::{
    ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError, SynthesisMode, Variable,
};
use decaf377::r1cs::FqVar;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    W,
    I,
    C,
    /// the sum of a witness and a public input
    L,
    /// the same variable as operand 0
    A,
}
use K::*;

pub fn circuit(k: usize, cs: ConstraintSystemRef<Fq>, d: &FqVar, x: &[FqVar]) -> Result<FqVar, SynthesisError> {
    let x: Vec<FqVar> = x.to_vec();
    let g = |i: usize| x[i].clone();
    use poseidon377::r1cs::*;
    match k {
        1 => hash_1(cs, d, g(0)),
        2 => hash_2(cs, d, (g(0), g(1))),
        3 => hash_3(cs, d, (g(0), g(1), g(2))),
        4 => hash_4(cs, d, (g(0), g(1), g(2), g(3))),
        5 => hash_5(cs, d, (g(0), g(1), g(2), g(3), g(4))),
        6 => hash_6(cs, d, (g(0), g(1), g(2), g(3), g(4), g(5))),
        7 => hash_7(cs, d, (g(0), g(1), g(2), g(3), g(4), g(5), g(6))),
        _ => unreachable!(),
    }
}

type Row = Vec<(Fq, usize)>;
pub struct Synth {
    pub a: Vec<Row>,
    pub b: Vec<Row>,
    pub c: Vec<Row>,
    pub ninst: usize,
    pub nwit: usize,
    /// the output as a linear combination, or a constant
    pub out: Result<Row, Fq>,
    pub out_value: Option<Fq>,
    /// (position, value) of the operand variables, in the order of allocation
    pub operands: Vec<(usize, Option<Fq>)>,
    /// the honest assignment (empty in setup mode)
    pub z: Vec<Fq>,
}

/// Run the in-circuit hash; `vals` = operand values (two per linear-combination operand), None in setup mode.
pub fn synth(
    k: usize,
    mix: &[K],
    vals: &[Fq],
    extra: &[Fq],
    setup: bool,
    goal: OptimizationGoal,
    before: usize,
    matrices: bool,
) -> Result<Synth, SynthesisError> {
    let cs = ConstraintSystem::<Fq>::new_ref();
    cs.set_optimization_goal(goal);
    cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: matrices } });
    let mut named: Vec<(Variable, Option<Fq>)> = vec![];
    let mut alloc = |cs: &ConstraintSystemRef<Fq>, input: bool, v: Fq| -> Result<FqVar, SynthesisError> {
        let f = || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(v) };
        let x = if input { FqVar::new_input(cs.clone(), f)? } else { FqVar::new_witness(cs.clone(), f)? };
        if let FqVar::Var(a) = &x {
            named.push((a.variable, if setup { None } else { Some(v) }));
        }
        Ok(x)
    };
    let mut ops: Vec<FqVar> = vec![];
    for (i, m) in mix.iter().enumerate() {
        let v = vals[i];
        let o = match m {
            W => alloc(&cs, false, v)?,
            I => alloc(&cs, true, v)?,
            C => FqVar::constant(v),
            L => {
                let p = alloc(&cs, false, v - extra[i])?;
                let q = alloc(&cs, true, extra[i])?;
                p + q
            }
            A => ops[0].clone(),
        };
        ops.push(o);
    }
    for b in 0..before {
        match b {
            0 => {
                // same rate, shifted operands
                circuit(k, cs.clone(), &ops[1], &ops[..ops.len() - 1])?;
            }
            1 => {
                // same rate, last operand replaced
                let mut o = ops.clone();
                o[k] = ops[0].clone();
                circuit(k, cs.clone(), &o[0], &o[1..])?;
            }
            _ => {
                // another rate
                let r = (b - 2) % 7 + 1;
                let o: Vec<FqVar> = (0..=r).map(|i| ops[i % ops.len()].clone()).collect();
                circuit(r, cs.clone(), &o[0], &o[1..])?;
            }
        }
    }
    let out = circuit(k, cs.clone(), &ops[0], &ops[1..])?;
    let mut probe = None;
    let res = match &out {
        FqVar::Constant(c) => Err(*c),
        FqVar::Var(a) => {
            probe = Some(cs.num_constraints());
            cs.enforce_constraint(lc!() + a.variable, lc!() + Variable::One, lc!() + a.variable)?;
            Ok(vec![])
        }
    };
    let out_value = out.value().ok();
    if !matrices {
        let s = cs.borrow().unwrap();
        let z = s.instance_assignment.iter().chain(&s.witness_assignment).cloned().collect();
        let (ninst, nwit) = (s.num_instance_variables, s.num_witness_variables);
        return Ok(Synth { a: vec![], b: vec![], c: vec![], ninst, nwit, out: res, out_value, operands: vec![], z });
    }
    let m = crate::plat::library(|| {
        cs.finalize();
        cs.to_matrices().expect("matrices")
    });
    let pos = |v: Variable| match v {
        Variable::One => 0,
        Variable::Instance(i) => i,
        Variable::Witness(i) => m.num_instance_variables + i,
        _ => panic!("operand is not a plain variable"),
    };
    let operands = named.iter().map(|(v, x)| (pos(*v), *x)).collect();
    let (mut a, mut b, mut c) = (m.a.clone(), m.b.clone(), m.c.clone());
    let mut res = res;
    if let Some(p) = probe {
        res = Ok(a.remove(p));
        b.remove(p);
        c.remove(p);
    }
    let z = if setup {
        vec![]
    } else {
        let s = cs.borrow().unwrap();
        s.instance_assignment.iter().chain(&s.witness_assignment).cloned().collect()
    };
    Ok(Synth {
        a,
        b,
        c,
        ninst: m.num_instance_variables,
        nwit: m.num_witness_variables,
        out: res,
        out_value,
        operands,
        z,
    })
}

fn eval(r: &Row, z: &[Fq]) -> Fq {
    r.iter().fold(spec::zero(), |s, (c, i)| s + *c * z[*i])
}
/// Evaluate a row over known variables: (known part, unknown variables with coefficients).
fn split(r: &Row, z: &[Option<Fq>]) -> (Fq, Vec<(usize, Fq)>) {
    let mut k = spec::zero();
    let mut u: Vec<(usize, Fq)> = vec![];
    for (c, i) in r {
        match z[*i] {
            Some(v) => k = k + *c * v,
            None => match u.iter_mut().find(|x| x.0 == *i) {
                Some(x) => x.1 = x.1 + *c,
                None => u.push((*i, *c)),
            },
        }
    }
    (k, u)
}
/// The coefficients (c0, c1, c2) of a constraint in its only unknown variable.
fn single(s: &Synth, n: usize, z: &[Option<Fq>]) -> Option<(usize, Fq, Fq, Fq)> {
    let (ka, ua) = split(&s.a[n], z);
    let (kb, ub) = split(&s.b[n], z);
    let (kc, uc) = split(&s.c[n], z);
    let mut v = None;
    for (i, _) in ua.iter().chain(&ub).chain(&uc) {
        if v.is_some() && v != Some(*i) {
            return None;
        }
        v = Some(*i);
    }
    let v = v?;
    let co = |u: &Vec<(usize, Fq)>| u.first().map_or(spec::zero(), |x| x.1);
    let (ca, cb, cc) = (co(&ua), co(&ub), co(&uc));
    Some((v, ka * kb - kc, ka * cb + kb * ca - cc, ca * cb))
}

/// Values forced by the constraints, given the operand values.
pub fn determine(s: &Synth) -> Vec<Option<Fq>> {
    let n = s.ninst + s.nwit;
    let mut z: Vec<Option<Fq>> = vec![None; n];
    z[0] = Some(spec::one());
    for (i, v) in &s.operands {
        z[*i] = *v;
    }
    let mut done = vec![false; s.a.len()];
    loop {
        let mut progress = false;
        for c in 0..s.a.len() {
            if done[c] {
                continue;
            }
            if let Some((v, k, l, q)) = single(s, c, &z) {
                if q != spec::zero() || l == spec::zero() {
                    continue;
                }
                done[c] = true;
                z[v] = Some((spec::zero() - k) * l.inverse().unwrap());
                progress = true;
            }
        }
        if !progress {
            return z;
        }
    }
}

/// Concrete search for a satisfying assignment whose output differs from `want`.
pub fn cheat(s: &Synth, want: Fq, seed: u64) -> Option<Vec<Fq>> {
    struct St<'a> {
        s: &'a Synth,
        want: Fq,
        nodes: usize,
        rng: u64,
    }
    fn rnd(r: &mut u64) -> Fq {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            *r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            c.copy_from_slice(&(*r ^ (*r >> 29)).to_le_bytes());
        }
        Fq::from_le_bytes_mod_order(&b)
    }
    /// close under unique solutions; false on contradiction
    fn close(s: &Synth, z: &mut Vec<Option<Fq>>) -> bool {
        loop {
            let mut progress = false;
            for c in 0..s.a.len() {
                let (ka, ua) = split(&s.a[c], z);
                let (kb, ub) = split(&s.b[c], z);
                let (kc, uc) = split(&s.c[c], z);
                if ua.is_empty() && ub.is_empty() && uc.is_empty() {
                    if ka * kb != kc {
                        return false;
                    }
                    continue;
                }
                if let Some((v, k, l, q)) = single(s, c, z) {
                    if q == spec::zero() {
                        if l == spec::zero() {
                            if k != spec::zero() {
                                return false;
                            }
                            continue;
                        }
                        z[v] = Some((spec::zero() - k) * l.inverse().unwrap());
                        progress = true;
                    }
                }
            }
            if !progress {
                return true;
            }
        }
    }
    fn go(st: &mut St, mut z: Vec<Option<Fq>>) -> Option<Vec<Fq>> {
        st.nodes += 1;
        if st.nodes > 400 {
            return None;
        }
        if !close(st.s, &mut z) {
            return None;
        }
        let Some(u) = z.iter().position(|x| x.is_none()) else {
            let full: Vec<Fq> = z.iter().map(|x| x.unwrap()).collect();
            let o = match &st.s.out {
                Ok(r) => eval(r, &full),
                Err(c) => *c,
            };
            return if o != st.want { Some(full) } else { None };
        };
        let honest = st.s.z.get(u).cloned().unwrap_or(spec::zero());
        let mut cands = vec![];
        for c in 0..st.s.a.len() {
            if let Some((v, k, l, q)) = single(st.s, c, &z) {
                if v == u && q != spec::zero() {
                    // q z^2 + l z + k = 0
                    let two_q = (q + q).inverse().unwrap();
                    let disc = l * l - Fq::from(4u64) * q * k;
                    if let Some(r) = crate::plat::sqrt(disc) {
                        cands.push((r - l) * two_q);
                        cands.push((spec::zero() - r - l) * two_q);
                    }
                }
            }
        }
        let mut rng = st.rng;
        cands.push(rnd(&mut rng));
        st.rng = rng;
        cands.push(honest + spec::one());
        cands.push(spec::zero());
        cands.push(spec::one());
        cands.push(honest);
        for x in cands {
            let mut z2 = z.clone();
            z2[u] = Some(x);
            if let Some(r) = go(st, z2) {
                return Some(r);
            }
        }
        None
    }
    // start from the operands alone
    let n = s.ninst + s.nwit;
    let mut z: Vec<Option<Fq>> = vec![None; n];
    z[0] = Some(spec::one());
    for (i, v) in &s.operands {
        z[*i] = *v;
    }
    // greedy: free variables take arbitrary values, in the order of the constraints
    let mut rng = seed | 1;
    for style in 0..3 {
        let mut g = z.clone();
        for c in 0..s.a.len() {
            for row in [&s.a[c], &s.b[c]] {
                for (co, i) in row {
                    if g[*i].is_none() && *co != spec::zero() {
                        let honest = s.z.get(*i).cloned().unwrap_or(spec::zero());
                        g[*i] = Some(match style {
                            0 => rnd(&mut rng),
                            1 => honest + spec::one(),
                            _ => spec::zero(),
                        });
                    }
                }
            }
            if let Some((v, k, l, q)) = single(s, c, &g) {
                if q == spec::zero() && l != spec::zero() {
                    g[v] = Some((spec::zero() - k) * l.inverse().unwrap());
                }
            }
        }
        let full: Vec<Fq> = g.iter().map(|x| x.unwrap_or(spec::one())).collect();
        let holds = (0..s.a.len()).all(|c| eval(&s.a[c], &full) * eval(&s.b[c], &full) == eval(&s.c[c], &full));
        let o = match &s.out {
            Ok(r) => eval(r, &full),
            Err(c) => *c,
        };
        if holds && o != want {
            return Some(full);
        }
    }
    if s.a.len() > 4000 {
        return None;
    }
    go(&mut St { s, want, nodes: 0, rng: seed }, z)
}

fn mixes(k: usize, thorough: bool) -> Vec<(String, Vec<K>, usize)> {
    let n = k + 1;
    let mut v: Vec<(String, Vec<K>, usize)> = vec![
        ("all witnesses".into(), vec![W; n], 0),
        ("all public inputs".into(), vec![I; n], 0),
        ("all constants".into(), vec![C; n], 0),
        ("constant domain, witnesses".into(), [vec![C], vec![W; k]].concat(), 0),
        ("witness domain, constants".into(), [vec![W], vec![C; k]].concat(), 0),
        ("public domain, witnesses".into(), [vec![I], vec![W; k]].concat(), 0),
        ("linear combinations".into(), vec![L; n], 0),
        ("one variable for every operand".into(), [vec![W], vec![A; k]].concat(), 0),
        ("witnesses, after two other hashes".into(), vec![W; n], 2),
    ];
    if k <= 2 {
        v.push(("constants, witness last".into(), [vec![C; k], vec![W]].concat(), 0));
    }
    let alt: Vec<K> = (0..n).map(|i| [W, C, I][i % 3]).collect();
    v.push(("alternating".into(), alt, 0));
    if thorough {
        // every mix of witness, public input and constant for small rates, single-constant mixes above
        if k <= 3 {
            for m in 0..3usize.pow(n as u32) {
                let mix: Vec<K> = (0..n).map(|i| [W, I, C][m / 3usize.pow(i as u32) % 3]).collect();
                v.push((format!("mix {mix:?}"), mix, 0));
            }
        } else {
            for i in 0..n {
                let mut a = vec![W; n];
                a[i] = C;
                v.push((format!("constant operand {i}"), a.clone(), 0));
                a[i] = I;
                v.push((format!("public operand {i}"), a, 0));
                if n <= 6 {
                    // more constants than this fork the generation too often
                    let mut a = vec![C; n];
                    a[i] = W;
                    v.push((format!("single witness operand {i}"), a, 0));
                }
            }
        }
    }
    v
}
fn operand_values(ctx: &mut Ctx, mix: &[K]) -> (Vec<Fq>, Vec<Fq>) {
    let n = mix.len();
    let mut v = vec![ctx.var("domain")];
    v.extend(vars(ctx, "x", n - 1));
    for i in 1..n {
        if mix[i] == A {
            v[i] = v[0];
        }
    }
    (v, vars(ctx, "part", n))
}

/// The values of the operand variables of an assignment, in the order of allocation.
fn operand_positions(s: &Synth, mix: &[K], v: &[Fq], extra: &[Fq]) -> Vec<(usize, Option<Fq>)> {
    let mut vals = vec![];
    for (i, m) in mix.iter().enumerate() {
        match m {
            W | I => vals.push(v[i]),
            L => vals.extend([v[i] - extra[i], extra[i]]),
            C | A => {}
        }
    }
    assert!(vals.len() == s.operands.len());
    s.operands.iter().zip(vals).map(|((p, _), v)| (*p, Some(v))).collect()
}

/// Every satisfying assignment gives the output the value `want`.
fn forces(ctx: &mut Ctx, lab: &str, s: &Synth, want: Fq) {
    match &s.out {
        Err(c) => ctx.eq(lab, *c, want),
        Ok(row) => {
            let z = determine(s);
            match row.iter().find(|(c, i)| z[*i].is_none() && *c != spec::zero()) {
                None => {
                    let o = row.iter().fold(spec::zero(), |a, (c, i)| z[*i].map_or(a, |v| a + *c * v));
                    // constraints might also be contradictory: then nothing satisfies them
                    ctx.eq(lab, o, want);
                }
                Some((_, i)) => {
                    let why = format!("variable {i} of the output is not determined by the constraints");
                    ctx.unproved(lab, &why, |seed| cheat(s, want, seed).is_some());
                }
            }
        }
    }
}

/// The circuit is synthesised with one set of operand values and judged on every assignment of the
/// operand variables (named y..), which need not be those values.
pub fn c05(thorough: bool) -> Vec<Job> {
    let mut out = vec![];
    for k in 1..=7usize {
        for (name, mix, before) in mixes(k, thorough) {
            out.push(job(format!("hash_{k}, {name}"), 2 + k as u32, move |ctx| {
                let (x, ex) = operand_values(ctx, &mix);
                // the assignment: constants stay what they are
                let n = mix.len();
                let mut y = vec![ctx.var("y_domain")];
                y.extend(vars(ctx, "y", n - 1));
                let ey = vars(ctx, "y_part", n);
                for i in 0..n {
                    match mix[i] {
                        C => y[i] = x[i],
                        A => y[i] = y[0],
                        _ => {}
                    }
                }
                ctx.trace_spec(&spec::published(k + 1), &x);
                let run = |ctx: &mut Ctx| {
                    ctx.try_run(|| synth(k, &mix, &x, &ex, false, OptimizationGoal::None, before, true)).and_then(|r| r.ok())
                };
                let Some(mut s) = run(ctx) else {
                    ctx.excluded("synthesis fails here: no constraints (see C06)");
                    return;
                };
                let Some(want) = ctx.try_run(|| native(k, &y[0], &y[1..])) else {
                    ctx.excluded("the native hash panics here (see C01)");
                    return;
                };
                s.operands = operand_positions(&s, &mix, &y, &ey);
                forces(ctx, "ensures every satisfying assignment's output == native hash", &s, want);
                // the same circuit once more, in a constraint system of its own
                let again = run(ctx);
                ctx.ok("second synthesis: ensures it succeeds like the first", again.is_some());
                if let Some(mut r) = again {
                    if !(r.a == s.a && r.b == s.b && r.c == s.c && r.ninst == s.ninst && r.nwit == s.nwit && r.out == s.out) {
                        r.operands = operand_positions(&r, &mix, &y, &ey);
                        forces(ctx, "second synthesis: ensures every satisfying assignment's output == native hash", &r, want);
                    }
                }
            }));
        }
    }
    out
}

pub fn c06(thorough: bool) -> Vec<Job> {
    let mut out = vec![];
    for k in 1..=7usize {
        for (name, mix, before) in mixes(k, thorough) {
            out.push(job(format!("hash_{k}, {name}"), 2 + k as u32, move |ctx| {
                let (x, ex) = operand_values(ctx, &mix);
                ctx.trace_spec(&spec::published(k + 1), &x);
                if mix.iter().all(|m| *m == C) {
                    let r = ctx.attempt("constants without a constraint system/no-panic", || {
                        let o: Vec<FqVar> = x.iter().map(|v| FqVar::constant(*v)).collect();
                        circuit(k, ConstraintSystemRef::None, &o[0], &o[1..]).ok().and_then(|h| h.value().ok())
                    });
                    if let (Some(r), Some(want)) = (r, ctx.try_run(|| native(k, &x[0], &x[1..]))) {
                        match r {
                            Some(h) => ctx.eq("constants without a constraint system/ensures output == native hash", h, want),
                            None => ctx.ok("constants without a constraint system/ensures Ok", false),
                        }
                    }
                }
                for goal in [OptimizationGoal::None, OptimizationGoal::Constraints, OptimizationGoal::Weight] {
                    let lab = |s: &str| format!("{goal:?} goal/{s}");
                    let Some(s) = ctx.attempt(&lab("proving/no-panic"), || synth(k, &mix, &x, &ex, false, goal, before, true))
                    else {
                        continue;
                    };
                    let s = match s {
                        Ok(s) => s,
                        Err(_) => {
                            ctx.ok(&lab("proving/ensures Ok"), false);
                            continue;
                        }
                    };
                    for n in 0..s.a.len() {
                        ctx.eq(
                            &lab(&format!("ensures the honest assignment satisfies constraint {n}")),
                            eval(&s.a[n], &s.z) * eval(&s.b[n], &s.z),
                            eval(&s.c[n], &s.z),
                        );
                    }
                    for (i, v) in &s.operands {
                        ctx.eq(&lab(&format!("operand variable {i} keeps its value")), s.z[*i], v.unwrap());
                    }
                    match (&s.out, &s.out_value) {
                        (Ok(r), Some(v)) => ctx.eq(&lab("ensures output value == output linear combination"), *v, eval(r, &s.z)),
                        (Err(c), Some(v)) => ctx.eq(&lab("ensures output value == output constant"), *v, *c),
                        (_, None) => ctx.ok(&lab("ensures the output has a value"), false),
                    }
                    if goal == OptimizationGoal::None {
                        let q = ctx.attempt(&lab("proving without matrices/no-panic"), || synth(k, &mix, &x, &ex, false, goal, before, false));
                        match q {
                            Some(Ok(q)) => {
                                ctx.ok(&lab("ensures the same variables without matrices"), q.z.len() == s.z.len() && q.ninst == s.ninst);
                                if q.z.len() == s.z.len() {
                                    for i in 0..s.z.len() {
                                        ctx.eq(&lab(&format!("ensures variable {i} has the same value without matrices")), q.z[i], s.z[i]);
                                    }
                                }
                            }
                            Some(Err(_)) => ctx.ok(&lab("proving without matrices/ensures Ok"), false),
                            None => {}
                        }
                    }
                    let Some(t) = ctx.attempt(&lab("setup/no-panic"), || synth(k, &mix, &x, &ex, true, goal, before, true)) else {
                        continue;
                    };
                    let t = match t {
                        Ok(t) => t,
                        Err(_) => {
                            ctx.ok(&lab("setup/ensures Ok"), false);
                            continue;
                        }
                    };
                    let same = s.a.len() == t.a.len() && s.ninst == t.ninst && s.nwit == t.nwit;
                    ctx.ok(&lab("ensures the numbers of constraints and variables are those of key setup"), same);
                    if !same {
                        continue;
                    }
                    for (nm, p, q) in [("A", &s.a, &t.a), ("B", &s.b, &t.b), ("C", &s.c, &t.c)] {
                        for n in 0..p.len() {
                            let cols = p[n].len() == q[n].len() && p[n].iter().zip(&q[n]).all(|(a, b)| a.1 == b.1);
                            if !cols {
                                ctx.ok(&lab(&format!("ensures {nm} row {n} is that of key setup")), false);
                                continue;
                            }
                            for (a, b) in p[n].iter().zip(&q[n]) {
                                ctx.eq(&lab(&format!("ensures {nm} row {n} is that of key setup")), a.0, b.0);
                                if !mix.contains(&C) {
                                    ctx.constant(&lab(&format!("ensures {nm} row {n} is constant")), b.0);
                                }
                            }
                        }
                    }
                    match (&s.out, &t.out) {
                        (Ok(p), Ok(q)) => {
                            let cols = p.len() == q.len() && p.iter().zip(q).all(|(a, b)| a.1 == b.1);
                            ctx.ok(&lab("ensures the output combination is that of key setup"), cols);
                            if cols {
                                for (a, b) in p.iter().zip(q) {
                                    ctx.eq(&lab("ensures the output combination is that of key setup"), a.0, b.0);
                                }
                            }
                        }
                        (Err(p), Err(q)) => ctx.eq(&lab("ensures the constant output is that of key setup"), *p, *q),
                        _ => ctx.ok(&lab("ensures the output is a variable in both modes"), false),
                    }
                }
            }));
        }
    }
    out
}
