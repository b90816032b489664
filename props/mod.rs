//! Contract harnesses: for every property, the functions of /repo under contract are called on
//! arbitrary arguments (`ctx.var`) and their postconditions are stated with `ctx.eq` / `ctx.ok`.
//! Compiled twice: against symbolic field elements (obligations) and against real ones (replay).
#![allow(non_snake_case, clippy::all)]
use crate::plat::Ctx;
use decaf377::Fq;

/// `for each supported rate`
macro_rules! rates {
    ($m:ident) => {
        vec![
            $m!(1, 2, 1, RATE_1_PARAMS, hash_1),
            $m!(2, 3, 2, RATE_2_PARAMS, hash_2),
            $m!(3, 4, 3, RATE_3_PARAMS, hash_3),
            $m!(4, 5, 4, RATE_4_PARAMS, hash_4),
            $m!(5, 6, 5, RATE_5_PARAMS, hash_5),
            $m!(6, 7, 6, RATE_6_PARAMS, hash_6),
            $m!(7, 8, 7, RATE_7_PARAMS, hash_7),
        ]
    };
}

#[cfg(not(feature = "min"))]
pub mod circuit;
pub mod constants;
pub mod hashes;
pub mod matrices;
pub mod misc;
pub mod spec;

pub struct Job {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
    /// approximate cost, to schedule long jobs first
    pub cost: u32,
}
pub fn job(name: impl Into<String>, cost: u32, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Job {
    Job { name: name.into(), run: Box::new(f), cost }
}

pub fn jobs(prop: &str, thorough: bool) -> Vec<Job> {
    let mut v = match prop {
        "C01" => hashes::c01(),
        "C02" => hashes::c02(),
        "C03" => hashes::c03(thorough),
        "C04" => hashes::c04(),
        #[cfg(not(feature = "min"))]
        "C05" => circuit::c05(thorough),
        #[cfg(not(feature = "min"))]
        "C06" => circuit::c06(thorough),
        "C07" => hashes::c07(thorough),
        "C08" => matrices::c08(thorough),
        "C09" => matrices::c09(),
        "C10" => matrices::c10(),
        "C11" => matrices::c11(),
        "C12" => matrices::c12(),
        "C13" => constants::c13(),
        "C14" => constants::c14(),
        "C15" => constants::c15(),
        "C16" => misc::c16(thorough),
        _ => vec![],
    };
    v.sort_by_key(|j| std::cmp::Reverse(j.cost));
    v
}

pub fn vars(ctx: &mut Ctx, prefix: &str, n: usize) -> Vec<Fq> {
    (0..n).map(|i| ctx.var(&format!("{}{}", prefix, i))).collect()
}
pub fn vec2(ctx: &mut Ctx, prefix: &str, r: usize, c: usize) -> Vec<Vec<Fq>> {
    (0..r).map(|i| (0..c).map(|j| ctx.var(&format!("{}_{}_{}", prefix, i, j))).collect()).collect()
}
pub fn flat(m: &[Vec<Fq>]) -> Vec<Fq> {
    m.iter().flat_map(|r| r.iter().cloned()).collect()
}
pub fn arr<const N: usize>(v: &[Fq]) -> [Fq; N] {
    let mut a = [Fq::from(0u64); N];
    assert_eq!(v.len(), N);
    a.copy_from_slice(v);
    a
}
/// Values of a `Matrix`-like object as rows.
pub fn rows_of<M: poseidon_parameters::v1::MatrixOperations>(m: &M) -> Vec<Vec<Fq>> {
    (0..m.n_rows()).map(|i| (0..m.n_cols()).map(|j| m.get_element(i, j)).collect()).collect()
}
