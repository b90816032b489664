//! Concrete platform: the same harnesses on the real field, to replay a point or to sample.
use crate::props::spec::{self, Params};
use decaf377::Fq;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    pub given: BTreeMap<String, Fq>,
    pub used: BTreeMap<String, Fq>,
    pub rng: u64,
    pub style: u64,
    pub failed: Vec<String>,
    pub checked: usize,
    pub excluded: bool,
    pub notes: Vec<String>,
    derived: bool,
}

pub fn hex(x: &Fq) -> String {
    let b = x.to_bytes_le();
    let s: String = b.iter().rev().map(|y| format!("{:02x}", y)).collect();
    let t = s.trim_start_matches('0');
    format!("0x{}", if t.is_empty() { "0" } else { t })
}
pub fn unhex(s: &str) -> Fq {
    s.trim_start_matches("0x").chars().fold(Fq::from(0u64), |a, c| {
        a * Fq::from(16u64) + Fq::from(c.to_digit(16).unwrap_or(0) as u64)
    })
}
/// Tonelli-Shanks.
/// Library code called by the harness, not by the code under contract.
pub fn library<T>(f: impl FnOnce() -> T) -> T {
    f()
}
pub fn sqrt(x: Fq) -> Option<Fq> {
    if x == spec::zero() {
        return Some(x);
    }
    let mut m = spec::q_bytes();
    m[0] -= 1;
    let shr = |m: &mut [u8; 32]| {
        let mut c = 0u8;
        for b in m.iter_mut().rev() {
            let n = (*b >> 1) | (c << 7);
            c = *b & 1;
            *b = n;
        }
    };
    let mut half = m;
    shr(&mut half);
    if spec::pow_bytes(x, &half) != spec::one() {
        return None;
    }
    let mut s = 0;
    while m[0] & 1 == 0 {
        shr(&mut m);
        s += 1;
    }
    let z = (2u64..).map(Fq::from).find(|z| spec::pow_bytes(*z, &half) != spec::one())?;
    let mut c = spec::pow_bytes(z, &m);
    let mut t = spec::pow_bytes(x, &m);
    let mut h = m;
    shr(&mut h);
    let mut r = spec::pow_bytes(x, &h) * x; // x^((m+1)/2), m odd
    let mut n = s;
    while t != spec::one() {
        let mut i = 0;
        let mut u = t;
        while u != spec::one() {
            u = u * u;
            i += 1;
            if i == n {
                return None;
            }
        }
        let mut b = c;
        for _ in 0..n - i - 1 {
            b = b * b;
        }
        r = r * b;
        c = b * b;
        t = t * c;
        n = i;
    }
    if r * r == x {
        Some(r)
    } else {
        None
    }
}

/// Integer literals of the source under test, as little-endian bytes (`VX_DICT`, set by the checker).
fn dict() -> &'static [Vec<u8>] {
    static D: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let hexes = std::env::var("VX_DICT").unwrap_or_default();
        hexes
            .split(',')
            .filter(|h| !h.is_empty() && h.len() <= 64)
            .map(|h| {
                let d: Vec<u8> = h.chars().rev().map(|c| c.to_digit(16).unwrap_or(0) as u8).collect();
                d.chunks(2).map(|c| c[0] | (c.get(1).unwrap_or(&0) << 4)).collect()
            })
            .collect()
    })
}

/// The first row of round constants of the shipped sets.
fn first_arc() -> &'static [Fq] {
    static A: std::sync::OnceLock<Vec<Fq>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v = vec![];
        macro_rules! rate {
            ($($p:ident $t:literal),*) => { $( v.extend_from_slice(&poseidon377::$p.arc.elements()[..$t]); )* };
        }
        use poseidon_parameters::v1::MatrixOperations;
        rate!(RATE_1_PARAMS 2, RATE_2_PARAMS 3, RATE_3_PARAMS 4, RATE_4_PARAMS 5, RATE_5_PARAMS 6, RATE_6_PARAMS 7, RATE_7_PARAMS 8);
        v
    })
}

impl Ctx {
    pub fn new(given: BTreeMap<String, Fq>, seed: u64) -> Ctx {
        let mut c = Ctx {
            given,
            used: BTreeMap::new(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567,
            style: 0,
            failed: vec![],
            checked: 0,
            excluded: false,
            notes: vec![],
            derived: false,
        };
        c.style = c.next() % if dict().is_empty() { 9 } else { 11 };
        c
    }
    /// A value built around a literal of the source: itself, its negative, a neighbour, a power of
    /// two, or a random element that shows it in some bytes or bits of its canonical form.
    fn literal(&mut self) -> Fq {
        let d = dict();
        let at = self.next() as usize % d.len();
        let l = &d[at];
        let mut w = [0u8; 8];
        let n = l.len().min(8);
        w[..n].copy_from_slice(&l[..n]);
        let l64 = u64::from_le_bytes(w);
        let whole = Fq::from_le_bytes_mod_order(l);
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        b[31] %= spec::q_bytes()[31];
        match self.next() % 9 {
            0 | 1 => return whole,
            2 => return Fq::from(0u64) - whole,
            3 => return whole + Fq::from(self.next() % 3) - Fq::from(1u64),
            4 => return spec::pow_bytes(Fq::from(2u64), &w[..1]) - Fq::from(self.next() % 2),
            5 => {
                // low or high bits of a limb
                let k = 8 * (self.next() as usize % 4);
                let n = if self.next() % 2 == 0 { n.max(1) } else { 8 };
                if self.next() % 2 == 0 {
                    b[k..k + n].copy_from_slice(&w[..n]);
                } else {
                    b[k + 8 - n..k + 8].copy_from_slice(&w[..n]);
                }
            }
            6 => {
                // consecutive literals in consecutive bytes
                let k = self.next() as usize % 32;
                for i in 0..1 + self.next() as usize % 8 {
                    b[(k + i) % 32] = *d[(at + i) % d.len()].first().unwrap_or(&0);
                }
            }
            7 => {
                let k = self.next() as usize % 32;
                b[k] = l64 as u8;
            }
            _ => {
                // every byte, or a run of bytes, the same
                let (f, t) = (self.next() as usize % 32, self.next() as usize % 33);
                for x in b[f.min(t)..f.max(t)].iter_mut() {
                    *x = l64 as u8;
                }
            }
        }
        Fq::from_le_bytes_mod_order(&b)
    }
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn random(&mut self) -> Fq {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        Fq::from_le_bytes_mod_order(&b)
    }
    fn special(&mut self) -> Fq {
        let k = self.next();
        match k % 16 {
            0..=4 => Fq::from(0u64),
            5..=6 => Fq::from(1u64),
            7 => Fq::from(0u64) - Fq::from(1u64),
            8 => Fq::from(2u64),
            9 => Fq::from(self.next() % 20),
            10 => Fq::from(0u64) - Fq::from(self.next() % 20),
            11 => Fq::from(1u64 << (self.next() % 64)),
            12 => Fq::from(self.next()),
            13 => {
                let n = self.used.len().max(1) as u64;
                let i = (self.next() % n) as usize;
                self.used.values().nth(i).cloned().unwrap_or(Fq::from(3u64))
            }
            14 => {
                let mut e = [0u8; 1];
                e[0] = (self.next() % 252) as u8;
                spec::pow_bytes(Fq::from(2u64), &e)
            }
            _ => Fq::from((self.next() % 8) as u64).inverse().unwrap_or(Fq::from(5u64)),
        }
    }
    fn sample(&mut self) -> Fq {
        if self.style >= 9 && self.next() % 10 < if self.style == 9 { 3 } else { 8 } {
            return self.literal();
        }
        if self.style == 8 && self.next() % 10 < 7 {
            // a special value in front of the first S-box layer
            let a = first_arc();
            let k = self.next() as usize % a.len();
            return self.special() - a[k];
        }
        let special = match self.style {
            0 | 1 => 0,
            2 => 2,
            3 => 5,
            4 => 9,
            5 => 10,
            6 => 7,
            _ => 1,
        };
        if self.next() % 10 < special {
            self.special()
        } else {
            self.random()
        }
    }
    /// from here on every variable is a function of two values
    pub fn derive(&mut self) {
        self.var("seed_a");
        self.var("seed_b");
        self.derived = true;
    }
    pub fn var(&mut self, name: &str) -> Fq {
        if self.derived {
            let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            return self.used["seed_a"] * Fq::from(h) + self.used["seed_b"];
        }
        if let Some(v) = self.used.get(name) {
            return *v;
        }
        let v = match self.given.get(name) {
            Some(v) => *v,
            None => self.sample(),
        };
        self.used.insert(name.to_string(), v);
        v
    }
    fn check(&mut self, label: &str, ok: bool) {
        self.checked += 1;
        if !ok {
            self.failed.push(label.to_string());
        }
    }
    pub fn eq(&mut self, label: &str, a: Fq, b: Fq) {
        self.check(label, a == b);
        if a != b && self.notes.len() < 40 {
            self.notes.push(format!("{label}: got {} expected {}", hex(&a), hex(&b)));
        }
    }
    pub fn ok(&mut self, label: &str, v: bool) {
        self.check(label, v);
    }
    pub fn constant(&mut self, _: &str, _: Fq) {}
    pub fn try_run<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        catch_unwind(AssertUnwindSafe(f)).ok()
    }
    pub fn attempt<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        let r = self.try_run(f);
        self.check(label, r.is_some());
        r
    }
    pub fn panics<T>(&mut self, label: &str, should: bool, f: impl FnOnce() -> T) {
        let r = self.try_run(f);
        let what = if should { "is refused" } else { "is accepted" };
        self.check(&format!("{label} {what}"), r.is_none() == should);
    }
    pub fn excluded(&mut self, _: &str) {
        self.excluded = true;
    }
    pub fn given(&mut self, name: &str) -> Option<u64> {
        let v = self.given.get(name)?;
        let b = v.to_bytes_le();
        let mut w = [0u8; 8];
        w.copy_from_slice(&b[..8]);
        Some(u64::from_le_bytes(w))
    }
    pub fn unproved(&mut self, label: &str, why: &str, f: impl FnOnce(u64) -> bool) {
        let seed = self.next();
        let bad = f(seed);
        self.check(label, !bad);
        if bad {
            self.notes.push(format!("{label}: {why}; found a satisfying assignment with another output"));
        }
    }
    pub fn trace_spec(&mut self, _: &Params, _: &[Fq]) {}
    pub fn injective(
        &mut self,
        label: &str,
        x: &[Fq],
        out: &[Fq],
        run: &dyn Fn(&[Fq]) -> Vec<Fq>,
        reference: &dyn Fn(&[Fq]) -> Option<Vec<Fq>>,
        candidates: &dyn Fn() -> Vec<(Vec<Fq>, Vec<Fq>)>,
        model: &Params,
    ) {
        let mut pairs = candidates();
        // if the code deviates from the bijective reference at x, the reference's preimage of the
        // code's output is a second preimage
        if let Some(r) = reference(x) {
            if r != out && spec::inverse(&model.mds).is_some() {
                let p = spec::unpermute(model, out);
                pairs.push((x.to_vec(), p));
            }
        }
        let mut hit = false;
        for (a, b) in pairs {
            if a != b {
                let (ra, rb) = (
                    catch_unwind(AssertUnwindSafe(|| run(&a))),
                    catch_unwind(AssertUnwindSafe(|| run(&b))),
                );
                if let (Ok(ra), Ok(rb)) = (ra, rb) {
                    if ra == rb {
                        hit = true;
                        self.notes.push(format!(
                            "{label}: inputs [{}] and [{}] give the same output words",
                            a.iter().map(hex).collect::<Vec<_>>().join(", "),
                            b.iter().map(hex).collect::<Vec<_>>().join(", ")
                        ));
                        break;
                    }
                }
            }
        }
        self.check(label, !hit);
    }
}
