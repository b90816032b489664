//! C01 - C04, C07: the native hashes and permutations.
use super::spec::{self, Opt, Params, Sbox};
use super::*;
use crate::plat::Ctx;
use poseidon_parameters::v1::*;
use poseidon_permutation::Instance;

/// The native hash of rate k.
pub fn native(k: usize, d: &Fq, x: &[Fq]) -> Fq {
    match k {
        1 => poseidon377::hash_1(d, x[0]),
        2 => poseidon377::hash_2(d, (x[0], x[1])),
        3 => poseidon377::hash_3(d, (x[0], x[1], x[2])),
        4 => poseidon377::hash_4(d, (x[0], x[1], x[2], x[3])),
        5 => poseidon377::hash_5(d, (x[0], x[1], x[2], x[3], x[4])),
        6 => poseidon377::hash_6(d, (x[0], x[1], x[2], x[3], x[4], x[5])),
        7 => poseidon377::hash_7(d, (x[0], x[1], x[2], x[3], x[4], x[5], x[6])),
        _ => unreachable!(),
    }
}

pub fn c01() -> Vec<Job> {
    (1..=7usize)
        .map(|k| {
            job(format!("hash_{k}"), k as u32, move |ctx| {
                let t = k + 1;
                let p = spec::published(t);
                let d = ctx.var("domain");
                let x = vars(ctx, "x", k);
                let mut st = vec![d];
                st.extend(&x);
                ctx.trace_spec(&p, &st);
                let want = spec::permute(&p, &st).unwrap();
                if let Some(h) = ctx.attempt(&format!("hash_{k}/no-panic"), || native(k, &d, &x)) {
                    ctx.eq(&format!("hash_{k}/ensures result == Poseidon(domain, inputs)[1]"), h, want[1]);
                }
                // a second evaluation in the same process: no state may leak through globals
                if let Some(h) = ctx.attempt(&format!("hash_{k}/no-panic on repeat"), || native(k, &d, &x)) {
                    ctx.eq(&format!("hash_{k}/ensures same result on repeat"), h, want[1]);
                }
                // other calls in between that share all operands but one, a rotation of the operands,
                // or a prefix or extension at a neighbouring rate
                let y = ctx.var("y");
                let mut others: Vec<(String, Vec<Fq>)> = vec![];
                for i in 0..=k {
                    let mut o = st.clone();
                    o[i] = y;
                    others.push((format!("operand {i} changed"), o));
                }
                let mut o = st.clone();
                o.rotate_left(1);
                others.push(("operands rotated".into(), o));
                if k > 1 {
                    others.push(("last operand missing".into(), st[..k].to_vec()));
                }
                if k < 7 {
                    others.push(("one operand more".into(), st.iter().cloned().chain([y]).collect()));
                }
                for (what, o) in others {
                    let lab = format!("hash_{k}/after a call with {what}");
                    if let Some(h) = ctx.attempt(&format!("{lab}, no-panic"), || {
                        native(o.len() - 1, &o[0], &o[1..]);
                        native(k, &d, &x)
                    }) {
                        ctx.eq(&format!("{lab}, ensures result == Poseidon(domain, inputs)[1]"), h, want[1]);
                    }
                }
            })
        })
        .collect()
}

macro_rules! both {
    ($k:expr, $t:expr, $tm1:expr, $P:ident, $h:ident) => {
        job(format!("width_{}", $t), $t, |ctx: &mut Ctx| {
            let x = vars(ctx, "x", $t);
            ctx.trace_spec(&spec::published($t), &x);
            let params = &poseidon377::$P;
            let a = ctx.attempt("optimised/no-panic", || {
                let mut i = Instance::new(params);
                let h = i.n_to_1_fixed_hash(&arr::<$t>(&x));
                (h, i.output_words())
            });
            let b = ctx.attempt("unoptimised/no-panic", || {
                let mut i = Instance::new(params);
                let h = i.unoptimized_n_to_1_fixed_hash(arr::<$t>(&x));
                (h, i.output_words())
            });
            if let (Some((h1, o1)), Some((h2, o2))) = (a, b) {
                ctx.eq("ensures optimised result == unoptimised result", h1, h2);
                for i in 0..$t {
                    ctx.eq(&format!("ensures output word {i} equal"), o1[i], o2[i]);
                }
            }
        })
    };
}
pub fn c02() -> Vec<Job> {
    rates!(both)
}

/// Histories: o = optimised hash, u = unoptimised hash, r = read the output words, d = a second
/// instance over the same parameters hashes, h = a crate-level hash function runs.
macro_rules! hist_job {
    ($name:expr, $t:expr, $trace:expr, $mk:expr, $histories:expr) => {{
        let histories: Vec<String> = $histories;
        job($name, $t * histories.len() as u32, move |ctx: &mut Ctx| {
            let params_owned = $mk(ctx);
            let params = &params_owned;
            let x = vars(ctx, "x", $t);
            $trace(ctx, &x);
            // what a fresh instance gives
            let fresh_o = ctx.attempt("fresh optimised/no-panic", || {
                let mut i = Instance::new(params);
                let h = i.n_to_1_fixed_hash(&arr::<$t>(&x));
                (h, i.output_words())
            });
            let fresh_u = ctx.attempt("fresh unoptimised/no-panic", || {
                let mut i = Instance::new(params);
                let h = i.unoptimized_n_to_1_fixed_hash(arr::<$t>(&x));
                (h, i.output_words())
            });
            for hist in &histories {
                for last in ['o', 'u'] {
                    let lab = format!("after history '{hist}', {last}");
                    let ys: Vec<Vec<Fq>> =
                        (0..hist.len()).map(|n| vars(ctx, &format!("y{n}_"), $t)).collect();
                    let got = ctx.attempt(&format!("{lab}/no-panic"), || {
                        let mut i = Instance::new(params);
                        let mut other = Instance::new(params);
                        for (n, c) in hist.chars().enumerate() {
                            let y = if c.is_ascii_uppercase() { arr::<$t>(&x) } else { arr::<$t>(&ys[n]) };
                            match c.to_ascii_lowercase() {
                                'o' => {
                                    i.n_to_1_fixed_hash(&y);
                                }
                                'u' => {
                                    i.unoptimized_n_to_1_fixed_hash(y);
                                }
                                'r' => {
                                    let _ = i.output_words();
                                }
                                'd' => {
                                    other.n_to_1_fixed_hash(&y);
                                }
                                _ => unreachable!(),
                            }
                        }
                        let h = if last == 'o' {
                            i.n_to_1_fixed_hash(&arr::<$t>(&x))
                        } else {
                            i.unoptimized_n_to_1_fixed_hash(arr::<$t>(&x))
                        };
                        (h, i.output_words())
                    });
                    let fresh = if last == 'o' { &fresh_o } else { &fresh_u };
                    if let (Some((h, o)), Some((h0, o0))) = (got, fresh) {
                        ctx.eq(&format!("{lab}/ensures result == fresh result"), h, *h0);
                        for i in 0..$t {
                            ctx.eq(&format!("{lab}/ensures output word {i} == fresh"), o[i], o0[i]);
                        }
                    }
                }
            }
        })
    }};
}
macro_rules! c03_rate {
    ($k:expr, $t:expr, $tm1:expr, $P:ident, $h:ident) => {
        hist_job!(
            format!("width_{}", $t),
            $t,
            |ctx: &mut Ctx, x: &[Fq]| ctx.trace_spec(&spec::published($t), x),
            |_: &mut Ctx| poseidon377::$P,
            ["o", "u", "oo", "ou", "uo", "uu", "ro", "ur", "d", "O", "U", "oO", "ouo", "uou"]
                .iter()
                .map(|s| s.to_string())
                .collect()
        )
    };
}
macro_rules! c03_sym {
    ($t:expr, $tm1:expr, $rf:expr, $rp:expr, $alpha:expr, $h:expr) => {
        hist_job!(
            format!("symbolic parameters t={} r_F={} r_P={} {:?}", $t, $rf, $rp, $alpha),
            $t,
            |_: &mut Ctx, _: &[Fq]| (),
            |ctx: &mut Ctx| {
                sym_params::<$t, $tm1, { $t * $t }, { $tm1 * $tm1 }, { $rf + $rp }, { ($rf + $rp) * $t }, $rp>(
                    ctx, $rf, $alpha,
                )
                .0
            },
            $h.iter().map(|s: &&str| s.to_string()).collect()
        )
    };
}
pub fn c03(thorough: bool) -> Vec<Job> {
    let mut v = rates!(c03_rate);
    v.push(c03_sym!(2, 1, 2, 1, Alpha::Exponent(3), ["o", "u", "oo", "uo", "ou", "uu", "ouo"]));
    v.push(c03_sym!(3, 2, 2, 2, Alpha::Exponent(5), ["o", "u", "uo", "ou"]));
    if thorough {
        v.push(c03_sym!(2, 1, 4, 3, Alpha::Exponent(3), ["o", "u", "oo", "uo", "ou", "uu", "ouo", "uuuu", "oooo"]));
    }
    v
}

macro_rules! inj {
    ($k:expr, $t:expr, $tm1:expr, $P:ident, $h:ident) => {
        job(format!("width_{}", $t), $t, |ctx: &mut Ctx| {
            let x = vars(ctx, "x", $t);
            let params = &poseidon377::$P;
            // the layered model of this parameter set: only a source of collision candidates and of
            // a bijection to compare forked paths with
            let sb = match params.alpha {
                Alpha::Exponent(e) => Sbox::Pow(e as u64),
                Alpha::Inverse => Sbox::Inv,
            };
            let model = Params {
                t: $t,
                rf: params.rounds.r_F,
                rp: params.rounds.r_P,
                sbox: sb,
                mds: rows_of(&params.mds),
                arc: rows_of(&params.arc),
            };
            let om = &params.optimized_mds;
            let opt = Opt {
                arc: rows_of(&params.optimized_arc),
                mi: rows_of(&om.M_i),
                m00: om.M_00,
                v: om.v_collection.iter().map(|m| m.elements.to_vec()).collect(),
                w_hat: om.w_hat_collection.iter().map(|m| m.elements.to_vec()).collect(),
            };
            ctx.trace_spec(&model, &x);
            for kind in ["optimised", "unoptimised"] {
                let run = |s: &[Fq]| {
                    let mut i = Instance::new(params);
                    if kind == "optimised" {
                        i.n_to_1_fixed_hash(&arr::<$t>(s));
                    } else {
                        i.unoptimized_n_to_1_fixed_hash(arr::<$t>(s));
                    }
                    i.output_words().to_vec()
                };
                let shaped = model.arc.len() >= model.rf + model.rp
                    && opt.v.len() >= model.rp
                    && model.rp > 0;
                let reference = |s: &[Fq]| {
                    if !shaped {
                        None
                    } else if kind == "optimised" {
                        spec::permute_opt(&model, &opt, s)
                    } else {
                        spec::permute(&model, s)
                    }
                };
                let candidates = || spec::collision_candidates(&model, if kind == "optimised" { Some(&opt) } else { None });
                if let Some(o) = ctx.attempt(&format!("{kind}/no-panic"), || run(&x)) {
                    ctx.injective(&format!("{kind}/ensures injective"), &x, &o, &run, &reference, &candidates, &model);
                }
            }
        })
    };
}
pub fn c04() -> Vec<Job> {
    rates!(inj)
}

// ------------------------------------------------------------------ C07

pub type PP<
    const T: usize,
    const TM1: usize,
    const T2: usize,
    const TM12: usize,
    const R: usize,
    const RT: usize,
    const RP: usize,
> = PoseidonParameters<T, TM1, T2, TM12, R, T, RT, RP>;

/// A parameter set whose every field element is arbitrary.
pub fn sym_params<
    const T: usize,
    const TM1: usize,
    const T2: usize,
    const TM12: usize,
    const R: usize,
    const RT: usize,
    const RP: usize,
>(
    ctx: &mut Ctx,
    rf: usize,
    alpha: Alpha,
) -> (PP<T, TM1, T2, TM12, R, RT, RP>, Params, Opt) {
    let mds = vec2(ctx, "m", T, T);
    let arc = vec2(ctx, "c", R, T);
    let oarc = vec2(ctx, "oc", R, T);
    let mi = vec2(ctx, "mi", T, T);
    let m00 = ctx.var("m00");
    let v = vec2(ctx, "v", RP, TM1);
    let w = vec2(ctx, "w", RP, TM1);
    // fields the permutation has no business reading
    let junk = vec2(ctx, "junk", 7, T2);
    let p = build::<T, TM1, T2, TM12, R, RT, RP>(rf, alpha, &mds, &arc, &oarc, &mi, m00, &v, &w, &junk);
    let sb = match alpha {
        Alpha::Exponent(e) => Sbox::Pow(e as u64),
        Alpha::Inverse => Sbox::Inv,
    };
    (
        p,
        Params { t: T, rf, rp: RP, sbox: sb, mds, arc },
        Opt { arc: oarc, mi, m00, v, w_hat: w },
    )
}
pub fn build<
    const T: usize,
    const TM1: usize,
    const T2: usize,
    const TM12: usize,
    const R: usize,
    const RT: usize,
    const RP: usize,
>(
    rf: usize,
    alpha: Alpha,
    mds: &[Vec<Fq>],
    arc: &[Vec<Fq>],
    oarc: &[Vec<Fq>],
    mi: &[Vec<Fq>],
    m00: Fq,
    v: &[Vec<Fq>],
    w: &[Vec<Fq>],
    junk: &[Vec<Fq>],
) -> PP<T, TM1, T2, TM12, R, RT, RP> {
    let mk_v: [Matrix<1, TM1, TM1>; RP] = core::array::from_fn(|i| Matrix { elements: arr::<TM1>(&v[i]) });
    let mk_w: [Matrix<TM1, 1, TM1>; RP] = core::array::from_fn(|i| Matrix { elements: arr::<TM1>(&w[i]) });
    PoseidonParameters {
        M: 128,
        alpha,
        rounds: RoundNumbers { r_P: RP, r_F: rf },
        mds: MdsMatrix(SquareMatrix(Matrix { elements: arr::<T2>(&flat(mds)) })),
        arc: ArcMatrix(Matrix { elements: arr::<RT>(&flat(arc)) }),
        optimized_arc: OptimizedArcMatrix(ArcMatrix(Matrix { elements: arr::<RT>(&flat(oarc)) })),
        optimized_mds: OptimizedMdsMatrices {
            M_hat: SquareMatrix(Matrix { elements: arr::<TM12>(&junk[0][..TM12]) }),
            v: Matrix { elements: arr::<TM1>(&junk[1][..TM1]) },
            w: Matrix { elements: arr::<TM1>(&junk[2][..TM1]) },
            M_prime: SquareMatrix(Matrix { elements: arr::<T2>(&junk[3][..T2]) }),
            M_doubleprime: SquareMatrix(Matrix { elements: arr::<T2>(&junk[4][..T2]) }),
            M_inverse: SquareMatrix(Matrix { elements: arr::<T2>(&junk[5][..T2]) }),
            M_hat_inverse: SquareMatrix(Matrix { elements: arr::<TM12>(&junk[6][..TM12]) }),
            M_00: m00,
            M_i: Matrix { elements: arr::<T2>(&flat(mi)) },
            v_collection: mk_v,
            w_hat_collection: mk_w,
        },
    }
}

pub fn follow<
    const T: usize,
    const TM1: usize,
    const T2: usize,
    const TM12: usize,
    const R: usize,
    const RT: usize,
    const RP: usize,
>(
    ctx: &mut Ctx,
    rf: usize,
    alpha: Alpha,
) {
    let (p, sp, so) = sym_params::<T, TM1, T2, TM12, R, RT, RP>(ctx, rf, alpha);
    let x = vars(ctx, "x", T);
    let mut spec_failed = false;
    if let Some(want) = spec::permute(&sp, &x) {
        let got = ctx.attempt("unoptimised/no-panic", || {
            let mut i = Instance::new(&p);
            let h = i.unoptimized_n_to_1_fixed_hash(arr::<T>(&x));
            (h, i.output_words())
        });
        if let Some((h, o)) = got {
            ctx.eq("unoptimised/ensures result == word 1", h, want[1]);
            for i in 0..T {
                ctx.eq(&format!("unoptimised/ensures word {i} == Poseidon word {i}"), o[i], want[i]);
            }
        }
    } else {
        spec_failed = true;
    }
    if let Some(want) = spec::permute_opt(&sp, &so, &x) {
        let got = ctx.attempt("optimised/no-panic", || {
            let mut i = Instance::new(&p);
            let h = i.n_to_1_fixed_hash(&arr::<T>(&x));
            (h, i.output_words())
        });
        if let Some((h, o)) = got {
            ctx.eq("optimised/ensures result == word 1", h, want[1]);
            for i in 0..T {
                ctx.eq(&format!("optimised/ensures word {i} == schedule word {i}"), o[i], want[i]);
            }
        }
    } else {
        spec_failed = true;
    }
    if spec_failed {
        ctx.excluded("an inverse S-box argument is zero (precondition)");
    }
}

macro_rules! fol {
    ($t:expr, $tm1:expr, $rf:expr, $rp:expr, $alpha:expr, $cost:expr) => {
        job(
            format!("t={} r_F={} r_P={} alpha={:?}", $t, $rf, $rp, $alpha),
            $cost,
            |ctx: &mut Ctx| {
                follow::<$t, $tm1, { $t * $t }, { $tm1 * $tm1 }, { $rf + $rp }, { ($rf + $rp) * $t }, $rp>(
                    ctx, $rf, $alpha,
                )
            },
        )
    };
}
pub fn c07(thorough: bool) -> Vec<Job> {
    use Alpha::*;
    let mut v = vec![
        fol!(2, 1, 2, 1, Exponent(1), 1),
        fol!(2, 1, 2, 1, Exponent(2), 1),
        fol!(2, 1, 2, 1, Exponent(3), 1),
        fol!(2, 1, 2, 1, Exponent(17), 1),
        fol!(2, 1, 2, 1, Exponent(255), 1),
        fol!(2, 1, 2, 1, Exponent(256), 1),
        fol!(2, 1, 2, 1, Exponent(257), 1),
        fol!(2, 1, 2, 1, Exponent(65537), 2),
        fol!(2, 1, 2, 1, Inverse, 2),
        fol!(2, 1, 0, 1, Exponent(5), 1),
        fol!(2, 1, 0, 3, Exponent(5), 1),
        fol!(2, 1, 2, 2, Exponent(5), 1),
        fol!(2, 1, 2, 3, Exponent(5), 2),
        fol!(2, 1, 4, 1, Exponent(5), 2),
        fol!(2, 1, 4, 4, Exponent(3), 4),
        fol!(2, 1, 6, 2, Exponent(7), 4),
        fol!(2, 1, 8, 3, Exponent(17), 5),
        fol!(2, 1, 2, 2, Inverse, 3),
        fol!(3, 2, 2, 1, Exponent(17), 2),
        fol!(3, 2, 2, 3, Exponent(5), 3),
        fol!(3, 2, 4, 2, Exponent(11), 3),
        fol!(3, 2, 0, 2, Inverse, 2),
        fol!(4, 3, 2, 2, Exponent(5), 4),
        fol!(4, 3, 4, 3, Exponent(3), 6),
        fol!(5, 4, 2, 2, Exponent(17), 5),
        fol!(6, 5, 2, 1, Exponent(3), 4),
        fol!(8, 7, 2, 2, Exponent(17), 8),
    ];
    if thorough {
        v.push(fol!(2, 1, 10, 6, Exponent(5), 9));
        v.push(fol!(3, 2, 6, 5, Exponent(17), 9));
        v.push(fol!(4, 3, 4, 5, Exponent(13), 9));
        v.push(fol!(9, 8, 2, 2, Exponent(17), 12));
        v.push(fol!(10, 9, 2, 1, Exponent(5), 12));
        v.push(fol!(2, 1, 2, 1, Exponent(1000003), 9));
    }
    v
}
