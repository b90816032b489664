//! C13 - C15: ground obligations over the published parameter constants.
use super::spec::{self, Params, Sbox};
use super::*;
use crate::plat::Ctx;
use poseidon_parameters::v1::*;

fn eq_rows(ctx: &mut Ctx, what: &str, got: &[Vec<Fq>], want: &[Vec<Fq>]) {
    ctx.ok(
        &format!("{what}/shape"),
        got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.len() == b.len()),
    );
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        for (j, (x, y)) in a.iter().zip(b).enumerate() {
            ctx.eq(&format!("{what}[{i}][{j}]"), *x, *y);
        }
    }
}

macro_rules! derived {
    ($k:expr, $t:expr, $tm1:expr, $P:ident, $h:ident) => {
        job(format!("{}", stringify!($P)), $t, |ctx: &mut Ctx| {
            let p = &poseidon377::$P;
            let e = match p.alpha {
                Alpha::Exponent(e) => Sbox::Pow(e as u64),
                Alpha::Inverse => Sbox::Inv,
            };
            let base = Params {
                t: $t,
                rf: p.rounds.full(),
                rp: p.rounds.partial(),
                sbox: e,
                mds: rows_of(&p.mds),
                arc: rows_of(&p.arc),
            };
            ctx.ok(
                "round counts match the declared dimensions",
                base.arc.len() == base.rf + base.rp
                    && base.rp == p.optimized_mds.v_collection.len()
                    && base.rp == p.optimized_mds.w_hat_collection.len(),
            );
            let Some(d) = spec::derive(&base) else {
                ctx.ok("mixing matrix and its powers' sub-matrices are invertible", false);
                return;
            };
            let o = &p.optimized_mds;
            eq_rows(ctx, "M_hat", &rows_of(&o.M_hat), &d.m_hat);
            eq_rows(ctx, "v", &rows_of(&o.v), &[d.v.clone()]);
            eq_rows(ctx, "w", &rows_of(&o.w), &d.w.iter().map(|x| vec![*x]).collect::<Vec<_>>());
            eq_rows(ctx, "M_prime", &rows_of(&o.M_prime), &d.m_prime);
            eq_rows(ctx, "M_doubleprime", &rows_of(&o.M_doubleprime), &d.m_dprime);
            eq_rows(ctx, "M_inverse", &rows_of(&o.M_inverse), &d.m_inv);
            eq_rows(ctx, "M_hat_inverse", &rows_of(&o.M_hat_inverse), &d.m_hat_inv);
            ctx.eq("M_00", o.M_00, d.opt.m00);
            eq_rows(ctx, "M_i", &rows_of(&o.M_i), &d.opt.mi);
            for (i, m) in o.v_collection.iter().enumerate() {
                eq_rows(ctx, &format!("v_collection[{i}]"), &rows_of(m), &[d.opt.v[i].clone()]);
            }
            for (i, m) in o.w_hat_collection.iter().enumerate() {
                let want: Vec<Vec<Fq>> = d.opt.w_hat[i].iter().map(|x| vec![*x]).collect();
                eq_rows(ctx, &format!("w_hat_collection[{i}]"), &rows_of(m), &want);
            }
            eq_rows(ctx, "optimized_arc", &rows_of(&p.optimized_arc), &d.opt.arc);
            // the defining identities, stated directly
            let id = |n: usize| -> Vec<Vec<Fq>> {
                (0..n)
                    .map(|i| (0..n).map(|j| if i == j { spec::one() } else { spec::zero() }).collect())
                    .collect()
            };
            eq_rows(ctx, "M * M_inverse", &spec::mat_mul(&base.mds, &rows_of(&o.M_inverse)), &id($t));
            eq_rows(ctx, "M_inverse * M", &spec::mat_mul(&rows_of(&o.M_inverse), &base.mds), &id($t));
            eq_rows(
                ctx,
                "M_hat * M_hat_inverse",
                &spec::mat_mul(&rows_of(&o.M_hat), &rows_of(&o.M_hat_inverse)),
                &id($tm1),
            );
            eq_rows(
                ctx,
                "M_prime * M_doubleprime",
                &spec::mat_mul(&rows_of(&o.M_prime), &rows_of(&o.M_doubleprime)),
                &base.mds,
            );
        })
    };
}
pub fn c13() -> Vec<Job> {
    rates!(derived)
}

macro_rules! mdsjob {
    ($k:expr, $t:expr, $tm1:expr, $P:ident, $h:ident) => {
        job(format!("{}", stringify!($P)), $t, |ctx: &mut Ctx| {
            let m = rows_of(&poseidon377::$P.mds);
            eq_rows(ctx, "mds", &m, &spec::cauchy($t));
            let n = $t as usize;
            for r in 1u32..(1 << n) {
                let rows: Vec<usize> = (0..n).filter(|i| r >> i & 1 == 1).collect();
                for c in 1u32..(1 << n) {
                    if c.count_ones() != r.count_ones() {
                        continue;
                    }
                    let sub: Vec<Vec<Fq>> = rows
                        .iter()
                        .map(|i| (0..n).filter(|j| c >> j & 1 == 1).map(|j| m[*i][j]).collect())
                        .collect();
                    ctx.ok(
                        &format!("sub-matrix rows {r:#b} columns {c:#b} invertible"),
                        spec::det_concrete(&sub) != spec::zero(),
                    );
                }
            }
        })
    };
}
pub fn c14() -> Vec<Job> {
    rates!(mdsjob)
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
macro_rules! published {
    ($k:expr, $t:expr, $tm1:expr, $P:ident, $h:ident) => {
        job(format!("{}", stringify!($P)), $t, |ctx: &mut Ctx| {
            let p = &poseidon377::$P;
            ctx.ok("security level is 128", p.M == 128);
            ctx.ok("exponent is 17", p.alpha == Alpha::Exponent(17));
            let mut qm1 = spec::q_bytes();
            qm1[0] -= 1;
            if let Alpha::Exponent(e) = p.alpha {
                let e = e as u64;
                let rem = if e == 0 { 0 } else { qm1.iter().rev().fold(0u64, |r, b| (r * 256 + *b as u64) % e) };
                ctx.ok("exponent coprime to q - 1", e != 0 && gcd(e, rem) == 1);
            }
            ctx.ok("8 full rounds", p.rounds.full() == 8 && p.rounds.r_F == 8);
            ctx.ok("31 partial rounds", p.rounds.partial() == 31 && p.rounds.r_P == 31);
            ctx.ok("39 rounds in total", p.rounds.total() == 39);
            eq_rows(ctx, "arc", &rows_of(&p.arc), &spec::transcript_arc($t));
        })
    };
}
pub fn c15() -> Vec<Job> {
    rates!(published)
}
