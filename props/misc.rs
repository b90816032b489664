//! C16: machine-integer helpers (replay side; the proof is Kani's).
use super::*;
use crate::plat::Ctx;
use poseidon_parameters::v1::*;

pub fn alpha_ok(ctx: &mut Ctx, e: u32) {
    let a = Alpha::Exponent(e);
    ctx.ok(&format!("Exponent({e}).to_bytes_le()"), {
        let b = a.to_bytes_le();
        b[0] as u64 + ((b[1] as u64) << 8) + ((b[2] as u64) << 16) + ((b[3] as u64) << 24) == e as u64
    });
    let f: f64 = a.into();
    ctx.ok(&format!("f64::from(Exponent({e}))"), f >= 0.0 && f as u64 == e as u64 && f.fract() == 0.0);
}
pub fn rounds_ok(ctx: &mut Ctx, rp: usize, rf: usize, n: usize) {
    let mut r = RoundNumbers { r_P: rp, r_F: rf };
    ctx.ok(&format!("full({rf},{rp})"), r.full() == rf);
    ctx.ok(&format!("partial({rf},{rp})"), r.partial() == rp);
    if rp.checked_add(rf).is_some() {
        if let Some(t) = ctx.attempt(&format!("total({rf},{rp})/no-panic"), || r.total()) {
            ctx.ok(&format!("total({rf},{rp})"), t == rp + rf);
        }
    }
    *r.full_mut() = n;
    ctx.ok(&format!("full_mut({rf},{rp}) <- {n}"), r.r_F == n && r.r_P == rp && r.full() == n && r.partial() == rp);
    let mut r = RoundNumbers { r_P: rp, r_F: rf };
    *r.partial_mut() = n;
    ctx.ok(&format!("partial_mut({rf},{rp}) <- {n}"), r.r_P == n && r.r_F == rf && r.partial() == n && r.full() == rf);
}
pub fn c16(thorough: bool) -> Vec<Job> {
    let mut v = vec![
        job("alpha", 1, move |ctx: &mut Ctx| {
            ctx.ok("Inverse.to_bytes_le()", Alpha::Inverse.to_bytes_le() == [255u8; 4]);
            let f: f64 = Alpha::Inverse.into();
            ctx.ok("f64::from(Inverse)", f == -1.0);
            let mut es: Vec<u32> = (0..2000).collect();
            for s in 0..32 {
                for d in 0..4u32 {
                    es.push((1u32 << s).wrapping_add(d));
                    es.push((1u32 << s).wrapping_sub(d));
                }
            }
            es.push(u32::MAX);
            for e in es {
                alpha_ok(ctx, e);
            }
            if let Some(e) = ctx.given("exponent") {
                alpha_ok(ctx, e as u32);
            }
        }),
        job("rounds", 1, |ctx: &mut Ctx| {
            let c = [0usize, 1, 2, 3, 7, 8, 31, 39, 255, 256, 65535, 1 << 32, usize::MAX - 1, usize::MAX];
            for a in c {
                for b in c {
                    for n in [0usize, 1, 5, 8, 31, usize::MAX] {
                        rounds_ok(ctx, a, b, n);
                    }
                }
            }
            if let (Some(a), Some(b)) = (ctx.given("r_P"), ctx.given("r_F")) {
                let n = ctx.given("n").unwrap_or(5);
                rounds_ok(ctx, a as usize, b as usize, n as usize);
            }
        }),
    ];
    if thorough {
        v.push(job("all exponents", 100, |ctx: &mut Ctx| {
            let mut bad = None;
            for e in 0..=u32::MAX {
                let a = Alpha::Exponent(e);
                let f: f64 = a.into();
                if u32::from_le_bytes(a.to_bytes_le()) != e || f != e as f64 {
                    bad = Some(e);
                    break;
                }
            }
            ctx.ok(&format!("every u32 exponent (first failure {bad:?})"), bad.is_none());
        }));
    }
    v
}
