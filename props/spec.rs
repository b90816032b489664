//! The oracle: Poseidon over F_q written from the paper and the crate documentation, sharing no
//! code with /repo.  Everything is plain field arithmetic, so it evaluates on concrete and on
//! symbolic elements alike.
use decaf377::Fq;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sbox {
    Pow(u64),
    Inv,
}

#[derive(Clone)]
pub struct Params {
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    pub sbox: Sbox,
    pub mds: Vec<Vec<Fq>>,
    pub arc: Vec<Vec<Fq>>,
}

/// Optimised schedule data (Appendix B of the paper): `arc` rows, pre-mixing matrix, corner and the
/// sparse factors, the factor used in partial round number k (counted from 0) being rp-1-k.
#[derive(Clone)]
pub struct Opt {
    pub arc: Vec<Vec<Fq>>,
    pub mi: Vec<Vec<Fq>>,
    pub m00: Fq,
    pub v: Vec<Vec<Fq>>,
    pub w_hat: Vec<Vec<Fq>>,
}

pub fn zero() -> Fq {
    Fq::from(0u64)
}
pub fn one() -> Fq {
    Fq::from(1u64)
}

/// x^e by squaring; None when 1/x does not exist.
pub fn sbox(k: Sbox, x: Fq) -> Option<Fq> {
    match k {
        Sbox::Pow(e) => {
            let mut acc = one();
            for i in (0..64).rev() {
                acc = acc * acc;
                if (e >> i) & 1 == 1 {
                    acc = acc * x;
                }
            }
            Some(acc)
        }
        Sbox::Inv => x.inverse(),
    }
}

pub fn mat_vec(m: &[Vec<Fq>], x: &[Fq]) -> Vec<Fq> {
    m.iter().map(|r| dot(r, x)).collect()
}
pub fn dot(a: &[Fq], b: &[Fq]) -> Fq {
    assert_eq!(a.len(), b.len());
    let mut s = zero();
    for i in 0..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn mat_mul(a: &[Vec<Fq>], b: &[Vec<Fq>]) -> Vec<Vec<Fq>> {
    let n = b[0].len();
    a.iter()
        .map(|r| (0..n).map(|j| (0..b.len()).fold(zero(), |s, k| s + r[k] * b[k][j])).collect())
        .collect()
}
pub fn transpose(a: &[Vec<Fq>]) -> Vec<Vec<Fq>> {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}

/// The Poseidon permutation.
pub fn permute(p: &Params, state: &[Fq]) -> Option<Vec<Fq>> {
    let mut s = state.to_vec();
    for r in 0..p.rf + p.rp {
        for i in 0..p.t {
            s[i] = s[i] + p.arc[r][i];
        }
        let full = r < p.rf / 2 || r >= p.rf / 2 + p.rp;
        for i in 0..p.t {
            if full || i == 0 {
                s[i] = sbox(p.sbox, s[i])?;
            }
        }
        s = mat_vec(&p.mds, &s);
    }
    Some(s)
}

/// The optimised schedule with the given optimised data (which may be unrelated to `p.arc`).
pub fn permute_opt(p: &Params, o: &Opt, state: &[Fq]) -> Option<Vec<Fq>> {
    let h = p.rf / 2;
    let mut s = state.to_vec();
    let full = |s: &mut Vec<Fq>, r: usize| -> Option<()> {
        for i in 0..p.t {
            let y = s[i] + o.arc[r][i];
            s[i] = sbox(p.sbox, y)?;
        }
        *s = mat_vec(&p.mds, s);
        Some(())
    };
    for r in 0..h {
        full(&mut s, r)?;
    }
    for i in 0..p.t {
        s[i] = s[i] + o.arc[h][i];
    }
    s = mat_vec(&o.mi, &s);
    for k in 0..p.rp {
        s[0] = sbox(p.sbox, s[0])?;
        if k + 1 < p.rp {
            s[0] = s[0] + o.arc[h + 1 + k][0];
        }
        let f = p.rp - 1 - k;
        let mut n = vec![o.m00 * s[0] + dot(&o.w_hat[f], &s[1..])];
        for i in 1..p.t {
            n.push(o.v[f][i - 1] * s[0] + s[i]);
        }
        s = n;
    }
    for r in 0..h {
        full(&mut s, h + p.rp + r)?;
    }
    Some(s)
}

/// Concrete Gaussian elimination: the inverse, or None.
pub fn inverse(m: &[Vec<Fq>]) -> Option<Vec<Vec<Fq>>> {
    let n = m.len();
    let mut a: Vec<Vec<Fq>> = (0..n)
        .map(|i| {
            let mut r = m[i].clone();
            r.extend((0..n).map(|j| if i == j { one() } else { zero() }));
            r
        })
        .collect();
    for c in 0..n {
        let p = (c..n).find(|r| a[*r][c] != zero())?;
        a.swap(c, p);
        let k = a[c][c].inverse()?;
        for x in a[c].iter_mut() {
            *x = *x * k;
        }
        for r in 0..n {
            if r != c && a[r][c] != zero() {
                let f = a[r][c];
                for j in 0..2 * n {
                    let y = a[c][j];
                    a[r][j] = a[r][j] - f * y;
                }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}
pub fn det_concrete(m: &[Vec<Fq>]) -> Fq {
    let n = m.len();
    let mut a = m.to_vec();
    let mut d = one();
    for c in 0..n {
        let p = match (c..n).find(|r| a[*r][c] != zero()) {
            Some(p) => p,
            None => return zero(),
        };
        if p != c {
            a.swap(c, p);
            d = zero() - d;
        }
        d = d * a[c][c];
        let k = a[c][c].inverse().unwrap();
        for r in c + 1..n {
            let f = a[r][c] * k;
            for j in 0..n {
                let y = a[c][j];
                a[r][j] = a[r][j] - f * y;
            }
        }
    }
    d
}

fn tree_sum(mut v: Vec<Fq>) -> Fq {
    if v.is_empty() {
        return zero();
    }
    while v.len() > 1 {
        v = v.chunks(2).map(|c| if c.len() == 2 { c[0] + c[1] } else { c[0] }).collect();
    }
    v[0]
}
/// Leibniz formula: sum over all permutations of the signed products of entries.
pub fn det(m: &[Vec<Fq>]) -> Fq {
    let n = m.len();
    if n == 0 {
        return one();
    }
    let mut terms = Vec::new();
    fn rec(m: &[Vec<Fq>], row: usize, used: u32, sign: bool, prod: Option<Fq>, out: &mut Vec<Fq>) {
        let n = m.len();
        if row == n {
            let p = prod.unwrap();
            out.push(if sign { zero() - p } else { p });
            return;
        }
        for c in 0..n {
            if used & (1 << c) != 0 {
                continue;
            }
            // inversions with earlier rows: used columns greater than c
            let inv = (used >> (c + 1)).count_ones() % 2 == 1;
            let p = match prod {
                None => m[row][c],
                Some(p) => p * m[row][c],
            };
            rec(m, row + 1, used | (1 << c), sign ^ inv, Some(p), out);
        }
    }
    rec(m, 0, 0, false, None, &mut terms);
    tree_sum(terms)
}
pub fn without(m: &[Vec<Fq>], i: usize, j: usize) -> Vec<Vec<Fq>> {
    m.iter()
        .enumerate()
        .filter(|(r, _)| *r != i)
        .map(|(_, row)| row.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| *x).collect())
        .collect()
}

// ---- the published instance ----
pub const RF: usize = 8;
pub const RP: usize = 31;
pub const ALPHA: u64 = 17;
pub const LEVEL: usize = 128;
pub const Q_DEC: &str =
    "8444461749428370424248824938781546531375899335154063827935233455917409239041";

pub fn cauchy(t: usize) -> Vec<Vec<Fq>> {
    (0..t)
        .map(|i| (0..t).map(|j| Fq::from((i + t + j) as u64).inverse().unwrap()).collect())
        .collect()
}
/// q as 32 little-endian bytes, from its decimal expansion.
pub fn q_bytes() -> [u8; 32] {
    let mut b = [0u8; 32];
    for c in Q_DEC.bytes() {
        let mut carry = (c - b'0') as u32;
        for x in b.iter_mut() {
            let v = *x as u32 * 10 + carry;
            *x = v as u8;
            carry = v >> 8;
        }
    }
    b
}
/// Round constants from the transcript that binds width, level, modulus, rounds and exponent.
pub fn transcript_arc(t: usize) -> Vec<Vec<Fq>> {
    let mut tr = merlin::Transcript::new(b"round-constants");
    tr.append_message(b"dom-sep", b"poseidon-paramgen");
    tr.append_message(b"t", &(t as u64).to_le_bytes());
    tr.append_message(b"M", &(LEVEL as u64).to_le_bytes());
    tr.append_message(b"p", &q_bytes());
    tr.append_message(b"r_F", &[RF as u8]);
    tr.append_message(b"r_P", &[RP as u8]);
    tr.append_message(b"alpha", &(ALPHA as u32).to_le_bytes());
    (0..RF + RP)
        .map(|_| {
            (0..t)
                .map(|_| {
                    let mut d = [0u8; (253 + 135) / 8];
                    tr.challenge_bytes(b"round-constant", &mut d);
                    // little-endian integer mod q, by Horner
                    d.iter().rev().fold(zero(), |a, b| a * Fq::from(256u64) + Fq::from(*b as u64))
                })
                .collect()
        })
        .collect()
}
pub fn published(t: usize) -> Params {
    Params { t, rf: RF, rp: RP, sbox: Sbox::Pow(ALPHA), mds: cauchy(t), arc: transcript_arc(t) }
}

pub struct Derived {
    pub m_hat: Vec<Vec<Fq>>,
    pub m_hat_inv: Vec<Vec<Fq>>,
    pub m_inv: Vec<Vec<Fq>>,
    pub v: Vec<Fq>,
    pub w: Vec<Fq>,
    pub m_prime: Vec<Vec<Fq>>,
    pub m_dprime: Vec<Vec<Fq>>,
    pub opt: Opt,
}
fn bordered(h: &[Vec<Fq>]) -> Vec<Vec<Fq>> {
    let n = h.len() + 1;
    (0..n)
        .map(|i| {
            (0..n)
                .map(|j| match (i, j) {
                    (0, 0) => one(),
                    (0, _) | (_, 0) => zero(),
                    _ => h[i - 1][j - 1],
                })
                .collect()
        })
        .collect()
}
fn hat(m: &[Vec<Fq>]) -> Vec<Vec<Fq>> {
    m[1..].iter().map(|r| r[1..].to_vec()).collect()
}
/// Everything the optimised schedule needs, from the mixing matrix and the round constants alone.
///
/// Writing the linear layer of a partial round as L = [[m00, v],[w, H]]; moving H through the
/// partial rounds from last to first gives B_k = H^k with  sparse_k = [[m00, v H^-k... ]] --
/// computed here with row vectors on the transposed matrix exactly as Appendix B describes.
pub fn derive(p: &Params) -> Option<Derived> {
    let t = p.t;
    let m = &p.mds;
    let h = hat(m);
    let h_inv = inverse(&h)?;
    let m_inv = inverse(m)?;
    let v: Vec<Fq> = m[0][1..].to_vec();
    let w: Vec<Fq> = m[1..].iter().map(|r| r[0]).collect();
    let m_prime = bordered(&h);
    let w_hat = mat_vec(&h_inv, &w);
    let mut m_dprime: Vec<Vec<Fq>> = Vec::new();
    for i in 0..t {
        m_dprime.push(
            (0..t)
                .map(|j| match (i, j) {
                    (0, 0) => m[0][0],
                    (0, _) => v[j - 1],
                    (_, 0) => w_hat[i - 1],
                    _ => {
                        if i == j {
                            one()
                        } else {
                            zero()
                        }
                    }
                })
                .collect(),
        );
    }
    // sparse factors
    let mt = transpose(m);
    let mut mul = mt.clone();
    let mut vs = vec![];
    let mut whs = vec![];
    let mut mi = bordered(&hat(&mul));
    for _ in 0..p.rp {
        let mh = hat(&mul);
        vs.push(mul[0][1..].to_vec());
        let w: Vec<Fq> = mul[1..].iter().map(|r| r[0]).collect();
        whs.push(mat_vec(&inverse(&mh)?, &w));
        mi = bordered(&mh);
        mul = mat_mul(&mt, &mi);
    }
    let mi = transpose(&mi);
    // constants, moved backwards through the linear layer
    let mut arc = p.arc.clone();
    let h2 = p.rf / 2;
    let total = p.rf + p.rp;
    for r in (h2..total - 1 - h2).rev() {
        let back = mat_vec(&m_inv, &arc[r + 1]);
        for j in 1..t {
            arc[r][j] = arc[r][j] + back[j];
        }
        arc[r + 1] = (0..t).map(|j| if j == 0 { back[0] } else { zero() }).collect();
    }
    Some(Derived {
        m_hat: h,
        m_hat_inv: h_inv,
        m_inv,
        v,
        w,
        m_prime,
        m_dprime,
        opt: Opt { arc, mi, m00: m[0][0], v: vs, w_hat: whs },
    })
}

/// Inverse of the permutation on concrete states (odd exponents with a root).
pub fn fq_root(x: Fq, e: u64) -> Fq {
    // e^-1 mod q-1 by extended Euclid on (k(q-1)+1)/e
    let mut qm1 = q_bytes();
    qm1[0] -= 1; // q is odd
    let rem = qm1.iter().rev().fold(0u64, |r, b| (r * 256 + *b as u64) % e);
    let k = (0..e).find(|k| (k * rem + 1) % e == 0).expect("exponent coprime to q-1");
    let mut num = [0u8; 34];
    let mut carry = 1u64;
    for i in 0..34 {
        let v = (if i < 32 { qm1[i] as u64 * k } else { 0 }) + carry;
        num[i] = v as u8;
        carry = v >> 8;
    }
    let mut ex = [0u8; 34];
    let mut r = 0u64;
    for i in (0..34).rev() {
        let v = r * 256 + num[i] as u64;
        ex[i] = (v / e) as u8;
        r = v % e;
    }
    let mut acc = one();
    for b in ex.iter().rev() {
        for i in (0..8).rev() {
            acc = acc * acc;
            if (b >> i) & 1 == 1 {
                acc = acc * x;
            }
        }
    }
    acc
}
pub fn unpermute(p: &Params, out: &[Fq]) -> Vec<Fq> {
    let minv = inverse(&p.mds).expect("invertible mixing matrix");
    let mut s = out.to_vec();
    for r in (0..p.rf + p.rp).rev() {
        s = mat_vec(&minv, &s);
        let full = r < p.rf / 2 || r >= p.rf / 2 + p.rp;
        for i in 0..p.t {
            if full || i == 0 {
                s[i] = match p.sbox {
                    Sbox::Pow(e) => fq_root(s[i], e),
                    Sbox::Inv => s[i].inverse().unwrap_or(zero()),
                };
            }
            s[i] = s[i] - p.arc[r][i];
        }
    }
    s
}

/// A nonzero vector k with m k = 0, if the matrix is singular.
pub fn kernel(m: &[Vec<Fq>]) -> Option<Vec<Fq>> {
    let n = m.len();
    let mut a = m.to_vec();
    let mut piv: Vec<Option<usize>> = vec![None; n];
    let mut row = 0;
    for c in 0..n {
        let Some(p) = (row..n).find(|r| a[*r][c] != zero()) else { continue };
        a.swap(row, p);
        let k = a[row][c].inverse()?;
        for x in a[row].iter_mut() {
            *x = *x * k;
        }
        for r in 0..n {
            if r != row && a[r][c] != zero() {
                let f = a[r][c];
                for j in 0..n {
                    let y = a[row][j];
                    a[r][j] = a[r][j] - f * y;
                }
            }
        }
        piv[c] = Some(row);
        row += 1;
    }
    let free = (0..n).find(|c| piv[*c].is_none())?;
    let mut k = vec![zero(); n];
    k[free] = one();
    for c in 0..n {
        if let Some(r) = piv[c] {
            k[c] = zero() - a[r][free];
        }
    }
    Some(k)
}
#[derive(Clone)]
pub enum Layer {
    Add(Vec<Fq>),
    Sub0,
    SubAll,
    Mix(Vec<Vec<Fq>>),
}
pub fn layers(p: &Params, o: Option<&Opt>) -> Vec<Layer> {
    use Layer::*;
    let mut v = vec![];
    let h = p.rf / 2;
    match o {
        None => {
            for r in 0..p.rf + p.rp {
                v.push(Add(p.arc[r].clone()));
                v.push(if r < h || r >= h + p.rp { SubAll } else { Sub0 });
                v.push(Mix(p.mds.clone()));
            }
        }
        Some(o) => {
            let full = |v: &mut Vec<Layer>, r: usize| {
                v.push(Add(o.arc[r].clone()));
                v.push(SubAll);
                v.push(Mix(p.mds.clone()));
            };
            for r in 0..h {
                full(&mut v, r);
            }
            v.push(Add(o.arc[h].clone()));
            v.push(Mix(o.mi.clone()));
            for k in 0..p.rp {
                v.push(Sub0);
                if k + 1 < p.rp {
                    let mut a = vec![zero(); p.t];
                    a[0] = o.arc[h + 1 + k][0];
                    v.push(Add(a));
                }
                let f = p.rp - 1 - k;
                let m = (0..p.t)
                    .map(|i| {
                        (0..p.t)
                            .map(|j| match (i, j) {
                                (0, 0) => o.m00,
                                (0, _) => o.w_hat[f][j - 1],
                                (_, 0) => o.v[f][i - 1],
                                _ => if i == j { one() } else { zero() },
                            })
                            .collect()
                    })
                    .collect();
                v.push(Mix(m));
            }
            for r in 0..h {
                full(&mut v, h + p.rp + r);
            }
        }
    }
    v
}
fn sbox_root(k: Sbox, x: Fq) -> Option<Fq> {
    match k {
        Sbox::Pow(e) => {
            if e == 0 || e > 1 << 16 {
                return None;
            }
            root_opt(x, e)
        }
        Sbox::Inv => x.inverse(),
    }
}
/// Undo a prefix of layers.
pub fn undo(p: &Params, ls: &[Layer], s: &[Fq]) -> Option<Vec<Fq>> {
    let mut s = s.to_vec();
    for l in ls.iter().rev() {
        match l {
            Layer::Add(c) => {
                for i in 0..p.t {
                    s[i] = s[i] - c[i];
                }
            }
            Layer::Sub0 => s[0] = sbox_root(p.sbox, s[0])?,
            Layer::SubAll => {
                for i in 0..p.t {
                    s[i] = sbox_root(p.sbox, s[i])?;
                }
            }
            Layer::Mix(m) => s = mat_vec(&inverse(m)?, &s),
        }
    }
    Some(s)
}
/// Pairs of inputs that collide if the permutation follows the layers and one of them is not injective.
pub fn collision_candidates(p: &Params, o: Option<&Opt>) -> Vec<(Vec<Fq>, Vec<Fq>)> {
    let mut out = vec![];
    if p.rp == 0 || p.arc.len() < p.rf + p.rp {
        return out;
    }
    let ls = layers(p, o);
    let some = |n: u64| -> Vec<Fq> { (0..p.t as u64).map(|i| Fq::from(1000 * n + 17 * i + 3)).collect() };
    if let Sbox::Pow(e) = p.sbox {
        // x -> x^e with a nontrivial kernel: multiply by a root of unity of order dividing gcd(e, q-1)
        for d in [2u64, 3, 5, 7, 11, 13] {
            if e != 0 && e % d == 0 {
                let mut qm1 = q_bytes();
                qm1[0] -= 1;
                if qm1.iter().rev().fold(0u64, |r, b| (r * 256 + *b as u64) % d) == 0 {
                    // a root of unity of order d
                    let mut ex = [0u8; 32];
                    let mut r = 0u64;
                    for i in (0..32).rev() {
                        let v = r * 256 + qm1[i] as u64;
                        ex[i] = (v / d) as u8;
                        r = v % d;
                    }
                    for g in 2..60u64 {
                        let z = pow_bytes(Fq::from(g), &ex);
                        if z != one() {
                            for n in 0..4 {
                                let mut a = some(n);
                                let mut b = a.clone();
                                let c = match &ls[0] {
                                    Layer::Add(c) => c[0],
                                    _ => zero(),
                                };
                                b[0] = (a[0] + c) * z - c;
                                out.push((std::mem::take(&mut a), b));
                            }
                            break;
                        }
                    }
                }
            }
        }
    }
    for (i, l) in ls.iter().enumerate() {
        if let Layer::Mix(m) = l {
            if let Some(k) = kernel(m) {
                for n in 0..16u64 {
                    let a = some(n);
                    let b: Vec<Fq> = a.iter().zip(&k).map(|(x, y)| *x + *y * Fq::from(n + 1)).collect();
                    if let (Some(x), Some(y)) = (undo(p, &ls[..i], &a), undo(p, &ls[..i], &b)) {
                        out.push((x, y));
                    }
                }
                break;
            }
        }
    }
    out
}
pub fn pow_bytes(x: Fq, e: &[u8]) -> Fq {
    let mut acc = one();
    for b in e.iter().rev() {
        for i in (0..8).rev() {
            acc = acc * acc;
            if (b >> i) & 1 == 1 {
                acc = acc * x;
            }
        }
    }
    acc
}
fn root_opt(x: Fq, e: u64) -> Option<Fq> {
    let mut qm1 = q_bytes();
    qm1[0] -= 1;
    let rem = qm1.iter().rev().fold(0u64, |r, b| (r * 256 + *b as u64) % e);
    if (0..e).all(|k| (k * rem + 1) % e != 0) {
        return None;
    }
    Some(fq_root(x, e))
}
