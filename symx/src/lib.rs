//! Verification-condition engine over F_q.
//!
//! Symbolic field elements are polynomials in canonical form over atoms.  An atom is a base
//! variable, or the monic form of a non-monomial polynomial that has been raised to a power or
//! inverted (exponents may be negative once the polynomial is known to be nonzero on the path).
//! Every value also carries its evaluation at two random assignments of the base variables, so
//! that "these two values differ" always comes with a concrete assignment.
//!
//! Everything here is thread-local: one proof job runs per thread.
use ark_ed_on_bls12_377::Fq as F;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero as _};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Fld = F;
pub const NFP: usize = 2;
/// Payload of panics raised by the engine itself (never by the code under contract).
pub struct Unsupported(pub String);
/// Payload raised when the current path is infeasible or was abandoned.
pub struct PathAbort(pub String);

#[derive(Clone, Debug, PartialEq)]
pub struct Poly(pub Vec<(u32, F)>); // sorted by monomial id, no zero coefficient

#[derive(Clone)]
enum Atom {
    Var(String),
    Base(Rc<Poly>),
}

struct Node {
    poly: Option<Rc<Poly>>,
    fp: [F; NFP],
}

/// Serialisable expression, independent of the arena (used to carry facts between runs).
#[derive(Clone, Debug)]
pub enum Expr {
    Sum(Rc<Vec<(F, Vec<(Factor, i64)>)>>),
}
#[derive(Clone, Debug)]
pub enum Factor {
    Var(String),
    Base(Rc<Expr>),
}

#[derive(Clone, Debug)]
pub struct Fact {
    pub expr: Expr,
    pub zero: bool,
    /// an assumed equality `resolve_zero` has no solution for
    pub hard: bool,
}

/// What identifies a path: substitutions of base variables, assumed facts, opaque decisions.
#[derive(Clone, Debug, Default)]
pub struct PathSpec {
    pub substs: Vec<(String, Expr)>,
    pub facts: Vec<Fact>,
    /// values assumed zero that are still to be turned into substitutions (see `resolve_zero`)
    pub zeros: Vec<Expr>,
    pub opaque: Vec<bool>,
    /// concrete values given to some base variables (exploration paths only)
    pub fixed: Vec<(String, F)>,
    /// the substitutions do not cover the whole branch: refutation only
    pub partial: bool,
    /// an equality was assumed without making the random assignments satisfy it
    pub fp_invalid: bool,
    /// decisions on opaque conditions taken against the sample point
    pub against: usize,
    pub note: Vec<String>,
    pub depth: usize,
}

#[derive(Clone, Debug)]
pub enum Status {
    ProvedExact,
    ProvedProb,
    Refuted(BTreeMap<String, String>),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub struct Obligation {
    pub label: String,
    pub status: Status,
}

#[derive(Default)]
struct State {
    nodes: Vec<Node>,
    atoms: Vec<(Atom, [F; NFP])>,
    var_ix: HashMap<String, u32>,
    base_ix: HashMap<Vec<(u32, F)>, u32>,
    monos: Vec<Rc<[(u32, i64)]>>,
    mono_ix: HashMap<Rc<[(u32, i64)]>, u32>,
    mono_mul: HashMap<(u32, u32), u32>,
    mul_limit: usize,
    seed: u64,
    active: bool,
    // path
    path: PathSpec,
    facts: Vec<(Poly, bool)>, // monic polys
    facts_expr: Vec<Fact>,
    opaque_pos: usize,
    pending: Vec<PathSpec>,
    forks: usize,
    pub_obl: Vec<Obligation>,
    opaque_eq: usize,
    bytes_seen: bool,
    nvars: Vec<String>,
    ops: u64,
    op_budget: u64,
    frames: Option<Frames>,
    quiet: bool,
    /// atom^exp -> polynomial, from facts assumed to be zero on this path
    rules: Vec<(u32, i64, Poly)>,
    /// shared sub-expressions of the facts carried between runs
    expr_memo: HashMap<u32, Rc<Expr>>,
    build_memo: HashMap<*const Expr, (Rc<Expr>, Poly)>,
    deadline: Option<std::time::Instant>,
    since_check: u64,
}

thread_local! { static MEM: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; }
/// Allocator that counts the bytes allocated by each thread (one proof job runs per thread).
pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = MEM.try_with(|m| m.set(m.get() + l.size() as isize));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = MEM.try_with(|m| m.set(m.get() - l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = MEM.try_with(|m| m.set(m.get() + n as isize - l.size() as isize));
        std::alloc::System.realloc(p, l, n)
    }
}
pub fn thread_bytes() -> isize {
    MEM.with(|m| m.get())
}
/// Bytes one job may hold before its current path is abandoned (reported as not explored).
pub const MEM_LIMIT: isize = 2_900_000_000;
/// While quiet, equality tests between values that are not identical answer "different" without
/// exploring the other answer.  Only for library code called by the harness itself, where the test
/// merely drops terms with a zero coefficient.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = ST.with(|s| std::mem::replace(&mut s.borrow_mut().quiet, true));
    let r = f();
    ST.with(|s| s.borrow_mut().quiet = old);
    r
}

/// Invertible description of intermediate states, used only to find concrete inputs on which an
/// intermediate equality holds: `invert(k, state)` is the input that reaches `state` at frame `k`.
#[derive(Clone)]
pub struct Frames {
    pub vars: Vec<String>,
    pub count: usize,
    pub invert: Rc<dyn Fn(usize, &[F]) -> Vec<F>>,
}
pub fn set_frames(f: Frames) {
    ST.with(|s| s.borrow_mut().frames = Some(f));
}
/// (forks met in this run so far, depth of the path)
pub fn path_state() -> (usize, usize) {
    ST.with(|s| {
        let s = s.borrow();
        (s.forks, s.path.depth)
    })
}

thread_local! { static ST: RefCell<State> = RefCell::new(State::default()); }

// ---------------------------------------------------------------- small PRNG
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn hash_str(s: &str, seed: u64) -> F {
    let mut h = seed ^ 0xA5A5_5A5A_1234_5678;
    for b in s.bytes() {
        h ^= b as u64;
        h = splitmix(&mut h);
    }
    let mut bytes = [0u8; 64];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut h).to_le_bytes());
    }
    F::from_le_bytes_mod_order(&bytes)
}

pub fn random_f(seed: &mut u64) -> F {
    let mut bytes = [0u8; 64];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&splitmix(seed).to_le_bytes());
    }
    F::from_le_bytes_mod_order(&bytes)
}

/// x^e for e possibly negative (x nonzero then)
fn fpow(x: F, e: i64) -> F {
    let y = x.pow([e.unsigned_abs()]);
    if e < 0 {
        y.inverse().unwrap_or(F::zero())
    } else {
        y
    }
}

impl State {
    fn mono(&mut self, m: Vec<(u32, i64)>) -> u32 {
        let r: Rc<[(u32, i64)]> = m.into();
        if let Some(i) = self.mono_ix.get(&r) {
            return *i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(r.clone());
        self.mono_ix.insert(r, i);
        i
    }
    fn mono_prod(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.mono_mul.get(&key) {
            return *r;
        }
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let (mut i, mut j) = (0, 0);
        let mut out: Vec<(u32, i64)> = Vec::with_capacity(x.len() + y.len());
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i].0 < y[j].0) {
                out.push(x[i]);
                i += 1;
            } else if i == x.len() || y[j].0 < x[i].0 {
                out.push(y[j]);
                j += 1;
            } else {
                let e = x[i].1 + y[j].1;
                if e != 0 {
                    out.push((x[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        let r = self.mono(out);
        if self.mono_mul.len() < 8_000_000 {
            self.mono_mul.insert(key, r);
        }
        r
    }
    fn tick(&mut self, n: usize) {
        self.ops += n as u64;
        if self.op_budget != 0 && self.ops > self.op_budget {
            std::panic::panic_any(PathAbort("operation budget of the path exhausted".into()));
        }
        self.since_check += n as u64 + 16;
        if self.since_check > 50_000 {
            self.check_budget();
        }
    }
    fn check_budget(&mut self) {
        self.since_check = 0;
        if thread_bytes() > MEM_LIMIT {
            std::panic::panic_any(PathAbort("memory budget of the path exhausted".into()));
        }
        if self.deadline.map_or(false, |d| std::time::Instant::now() > d) {
            std::panic::panic_any(PathAbort("time budget of the path exhausted".into()));
        }
    }
    fn add_poly(&mut self, a: &Poly, b: &Poly, cb: F) -> Poly {
        self.tick(a.0.len() + b.0.len());
        let mut out = Vec::with_capacity(a.0.len() + b.0.len());
        let (mut i, mut j) = (0, 0);
        while i < a.0.len() || j < b.0.len() {
            if j == b.0.len() || (i < a.0.len() && a.0[i].0 < b.0[j].0) {
                out.push(a.0[i]);
                i += 1;
            } else if i == a.0.len() || b.0[j].0 < a.0[i].0 {
                out.push((b.0[j].0, b.0[j].1 * cb));
                j += 1;
            } else {
                let c = a.0[i].1 + b.0[j].1 * cb;
                if !c.is_zero() {
                    out.push((a.0[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Poly(out)
    }
    fn scale(&self, a: &Poly, c: F) -> Poly {
        if c.is_zero() {
            return Poly(vec![]);
        }
        Poly(a.0.iter().map(|(m, x)| (*m, *x * c)).collect())
    }
    /// distributive product, no factoring
    fn expand_mul(&mut self, a: &Poly, b: &Poly, lim: usize) -> Option<Poly> {
        if a.0.len().saturating_mul(b.0.len()) > lim {
            return None;
        }
        self.tick(a.0.len() * b.0.len());
        let mut acc: HashMap<u32, F> = HashMap::with_capacity(a.0.len() * b.0.len() / 2 + 8);
        for (ma, ca) in &a.0 {
            for (mb, cb) in &b.0 {
                let m = self.mono_prod(*ma, *mb);
                *acc.entry(m).or_insert(F::zero()) += *ca * *cb;
            }
        }
        let mut v: Vec<(u32, F)> = acc.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        v.sort_unstable_by_key(|(m, _)| *m);
        Some(Poly(v))
    }
    fn monic(&self, p: &Poly) -> (F, Poly) {
        let lc = p.0.last().unwrap().1;
        if lc.is_one() {
            return (lc, p.clone());
        }
        (lc, self.scale(p, lc.inverse().unwrap()))
    }
    fn eval(&self, p: &Poly, k: usize) -> F {
        let mut s = F::zero();
        for (m, c) in &p.0 {
            let mut t = *c;
            for (a, e) in self.monos[*m as usize].iter() {
                t *= fpow(self.atoms[*a as usize].1[k], *e);
            }
            s += t;
        }
        s
    }
    fn base(&mut self, p: &Poly) -> (F, u32) {
        let (lc, m) = self.monic(p);
        if let Some(i) = self.base_ix.get(&m.0) {
            return (lc, *i);
        }
        let mut fp = [F::zero(); NFP];
        for k in 0..NFP {
            fp[k] = self.eval(&m, k);
        }
        let i = self.atoms.len() as u32;
        self.base_ix.insert(m.0.clone(), i);
        self.atoms.push((Atom::Base(Rc::new(m)), fp));
        (lc, i)
    }
    fn known_base(&self, p: &Poly) -> Option<(F, u32)> {
        let (lc, m) = self.monic(p);
        self.base_ix.get(&m.0).map(|i| (lc, *i))
    }
    fn atom_pow(&mut self, a: u32, e: i64) -> u32 {
        self.mono(vec![(a, e)])
    }
    fn mul_poly(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.0.is_empty() || b.0.is_empty() {
            return Some(Poly(vec![]));
        }
        if a.0.len() == 1 && b.0.len() == 1 {
            let m = self.mono_prod(a.0[0].0, b.0[0].0);
            return Some(Poly(vec![(m, a.0[0].1 * b.0[0].1)]));
        }
        let (a, b) = if a.0.len() <= b.0.len() { (a, b) } else { (b, a) };
        if a.0.len() == 1 {
            if a.0[0].0 == 0 {
                return Some(self.scale(b, a.0[0].1));
            }
            // monomial containing the base of b: raise its exponent
            if let Some((lc, bi)) = self.known_base(b) {
                let m = self.monos[a.0[0].0 as usize].clone();
                if m.iter().any(|(x, _)| *x == bi) {
                    let p = self.atom_pow(bi, 1);
                    let r = self.mono_prod(a.0[0].0, p);
                    return Some(Poly(vec![(r, a.0[0].1 * lc)]));
                }
            }
            let lim = self.mul_limit;
            return self.expand_mul(a, b, lim);
        }
        if a.0.len() == b.0.len() {
            let r = b.0[0].1 * a.0[0].1.inverse().unwrap();
            if a.0
                .iter()
                .zip(b.0.iter())
                .all(|(x, y)| x.0 == y.0 && x.1 * r == y.1)
            {
                let (lc, i) = self.base(a);
                let m = self.atom_pow(i, 2);
                return Some(Poly(vec![(m, lc * lc * r)]));
            }
        }
        let lim = self.mul_limit;
        self.expand_mul(a, b, lim)
    }

    fn add_rule(&mut self, p: &Poly) {
        let mut best: Option<(u32, i64, F)> = None;
        for (m, c) in &p.0 {
            let mo = self.monos[*m as usize].clone();
            if mo.len() == 1 && mo[0].1 > 0 {
                let a = mo[0].0;
                let once =
                    p.0.iter()
                        .filter(|(n, _)| self.monos[*n as usize].iter().any(|x| x.0 == a))
                        .count()
                        == 1;
                if once && best.map_or(true, |b| a > b.0) {
                    best = Some((a, mo[0].1, *c));
                }
            }
        }
        let Some((a, e, c)) = best else { return };
        // nothing else in the fact may depend on the atom being rewritten
        for (m, _) in &p.0 {
            for (x, _) in self.monos[*m as usize].clone().iter() {
                if *x != a {
                    if let Atom::Base(b) = &self.atoms[*x as usize].0 {
                        let b = b.clone();
                        let mut deep = Default::default();
                        self.atoms_deep(&b, &mut deep);
                        if deep.iter().any(|y| *y == a) {
                            return;
                        }
                    }
                }
            }
        }
        let k = -c.inverse().unwrap();
        let rest = Poly(
            p.0.iter()
                .filter(|(m, _)| !self.monos[*m as usize].iter().any(|x| x.0 == a))
                .map(|(m, x)| (*m, *x * k))
                .collect(),
        );
        let rest = self.reduce(rest);
        self.rules.push((a, e, rest));
    }
    fn reduce(&mut self, p: Poly) -> Poly {
        if self.rules.is_empty() {
            return p;
        }
        let mut p = p;
        for _ in 0..50 {
            let mut hit = None;
            'o: for (m, _) in &p.0 {
                for (a, e) in self.monos[*m as usize].iter() {
                    if let Some(r) = self.rules.iter().position(|r| r.0 == *a && *e >= r.1) {
                        hit = Some(r);
                        break 'o;
                    }
                }
            }
            let Some(r) = hit else { break };
            let (a, e, rhs) = self.rules[r].clone();
            let mut keep = vec![];
            let mut extra: Vec<(Poly, Poly)> = vec![];
            for (m, c) in &p.0 {
                let mo = self.monos[*m as usize].clone();
                match mo.iter().find(|x| x.0 == a && x.1 >= e) {
                    None => keep.push((*m, *c)),
                    Some((_, k)) => {
                        let mut left: Vec<(u32, i64)> = mo.iter().filter(|x| x.0 != a).cloned().collect();
                        if *k > e {
                            left.push((a, *k - e));
                            left.sort_unstable();
                        }
                        let l = self.mono(left);
                        extra.push((Poly(vec![(l, *c)]), rhs.clone()));
                    }
                }
            }
            let mut acc = Poly(keep);
            let lim = self.mul_limit;
            for (x, y) in extra {
                match self.expand_mul(&x, &y, lim) {
                    Some(z) => acc = self.add_poly(&acc, &z, F::one()),
                    None => return p,
                }
            }
            p = acc;
        }
        p
    }
    fn is_base(&self, a: u32) -> bool {
        matches!(self.atoms[a as usize].0, Atom::Base(_))
    }
    fn has_base(&self, p: &Poly) -> bool {
        p.0.iter()
            .any(|(m, _)| self.monos[*m as usize].iter().any(|(a, _)| self.is_base(*a)))
    }
    /// Multiply through by the bases with negative exponents and expand every base atom.
    /// Some(poly over variables), zero iff p is identically zero where the inverted bases are nonzero.
    fn normalise(&mut self, p: &Poly, lim: usize) -> Option<Poly> {
        let mut p = p.clone();
        for _ in 0..64 {
            // clear negative exponents of bases
            let mut neg: BTreeMap<u32, i64> = BTreeMap::new();
            for (m, _) in &p.0 {
                for (a, e) in self.monos[*m as usize].iter() {
                    if *e < 0 && self.is_base(*a) {
                        let x = neg.entry(*a).or_insert(0);
                        *x = (*x).max(-*e);
                    }
                }
            }
            if !neg.is_empty() {
                let mm = self.mono(neg.iter().map(|(a, e)| (*a, *e)).collect());
                let mut v: Vec<(u32, F)> = Vec::with_capacity(p.0.len());
                for (m, c) in p.0.iter() {
                    let r = self.mono_prod(*m, mm);
                    v.push((r, *c));
                }
                v.sort_unstable_by_key(|x| x.0);
                p = Poly(v);
            }
            // newest base atom
            let mut top: Option<u32> = None;
            for (m, _) in &p.0 {
                for (a, _) in self.monos[*m as usize].iter() {
                    if self.is_base(*a) && top.map_or(true, |t| *a > t) {
                        top = Some(*a);
                    }
                }
            }
            let Some(t) = top else { return Some(p) };
            let bp = match &self.atoms[t as usize].0 {
                Atom::Base(b) => b.clone(),
                _ => unreachable!(),
            };
            // group by exponent of t
            let mut groups: BTreeMap<i64, Vec<(u32, F)>> = BTreeMap::new();
            for (m, c) in &p.0 {
                let mo = self.monos[*m as usize].clone();
                let e = mo.iter().find(|(a, _)| *a == t).map_or(0, |x| x.1);
                let rest: Vec<(u32, i64)> = mo.iter().filter(|(a, _)| *a != t).cloned().collect();
                let r = self.mono(rest);
                groups.entry(e).or_default().push((r, *c));
            }
            // Horner over the exponents of t
            let mut acc = Poly(vec![]);
            let mut prev: Option<i64> = None;
            for (e, v) in groups.into_iter().rev() {
                if let Some(pe) = prev {
                    for _ in 0..(pe - e) {
                        acc = self.expand_mul(&acc, &bp, lim)?;
                    }
                }
                let mut q: HashMap<u32, F> = HashMap::new();
                for (m, c) in v {
                    *q.entry(m).or_insert(F::zero()) += c;
                }
                let mut q: Vec<(u32, F)> = q.into_iter().filter(|x| !x.1.is_zero()).collect();
                q.sort_unstable_by_key(|x| x.0);
                acc = self.add_poly(&acc, &Poly(q), F::one());
                prev = Some(e);
            }
            if let Some(pe) = prev {
                for _ in 0..pe {
                    acc = self.expand_mul(&acc, &bp, lim)?;
                }
            }
            p = acc;
        }
        None
    }

    fn push(&mut self, poly: Option<Poly>, fp: [F; NFP]) -> u32 {
        self.nodes.push(Node {
            poly: poly.map(Rc::new),
            fp,
        });
        (self.nodes.len() - 1) as u32
    }

    fn get_var(&mut self, name: &str) -> Poly {
        if let Some((_, e)) = self.path.substs.iter().find(|(n, _)| n == name).cloned() {
            return self.build(&e);
        }
        if let Some((_, c)) = self.path.fixed.iter().find(|(n, _)| n == name).cloned() {
            return const_poly(c);
        }
        let i = match self.var_ix.get(name) {
            Some(i) => *i,
            None => {
                let i = self.atoms.len() as u32;
                let mut fp = [F::zero(); NFP];
                for k in 0..NFP {
                    fp[k] = hash_str(name, self.seed.wrapping_mul(31).wrapping_add(k as u64 + 1));
                }
                self.atoms.push((Atom::Var(name.to_string()), fp));
                self.var_ix.insert(name.to_string(), i);
                i
            }
        };
        let m = self.atom_pow(i, 1);
        Poly(vec![(m, F::one())])
    }

    fn build(&mut self, e: &Expr) -> Poly {
        let Expr::Sum(ts) = e;
        self.tick(ts.len());
        let mut acc = Poly(vec![]);
        for (c, fs) in ts.iter() {
            let mut t = const_poly(*c);
            for (f, ex) in fs {
                let p = match f {
                    Factor::Var(n) => self.get_var(n),
                    Factor::Base(b) => match self.build_memo.get(&Rc::as_ptr(b)) {
                        Some((_, p)) => p.clone(),
                        None => {
                            let p = self.build(b);
                            self.build_memo.insert(Rc::as_ptr(b), (b.clone(), p.clone()));
                            p
                        }
                    },
                };
                let q = self.pow_poly(&p, *ex);
                t = self
                    .mul_poly(&t, &q)
                    .expect("rebuild of a path fact exceeded the limit");
            }
            acc = self.add_poly(&acc, &t, F::one());
        }
        acc
    }
    fn try_build(&mut self, e: &Expr) -> Result<Poly, PathAbort> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.build(e))) {
            Ok(p) => Ok(p),
            Err(x) => match x.downcast::<PathAbort>() {
                Ok(a) if a.0.starts_with("inverse of zero") => Err(*a),
                Ok(a) => std::panic::panic_any(*a),
                Err(x) => std::panic::resume_unwind(x),
            },
        }
    }
    /// A power is zero exactly when its base is.
    fn strip_power(&mut self, mut monic: Poly) -> Poly {
        while monic.0.len() == 1 {
            let mo = self.monos[monic.0[0].0 as usize].clone();
            if mo.len() != 1 || mo[0].1 < 0 {
                break;
            }
            match &self.atoms[mo[0].0 as usize].0 {
                Atom::Base(b) => monic = (**b).clone(),
                Atom::Var(_) => {
                    let m = self.atom_pow(mo[0].0, 1);
                    monic = Poly(vec![(m, F::one())]);
                    break;
                }
            }
        }
        monic
    }
    fn pow_poly(&mut self, p: &Poly, e: i64) -> Poly {
        if e == 0 {
            return const_poly(F::one());
        }
        if p.0.is_empty() {
            if e < 0 {
                std::panic::panic_any(PathAbort("inverse of zero under the path's facts".into()));
            }
            return p.clone();
        }
        if e == 1 {
            return p.clone();
        }
        if p.0.len() == 1 {
            let m: Vec<(u32, i64)> = self.monos[p.0[0].0 as usize]
                .iter()
                .map(|(a, x)| (*a, x * e))
                .collect();
            let m = self.mono(m);
            return Poly(vec![(m, fpow(p.0[0].1, e))]);
        }
        let (lc, i) = self.base(p);
        let m = self.atom_pow(i, e);
        Poly(vec![(m, fpow(lc, e))])
    }
    fn to_expr(&mut self, p: &Poly, depth: usize) -> Expr {
        if depth > 4000 {
            std::panic::panic_any(PathAbort("expression too deep".into()));
        }
        let mut v = Vec::new();
        for (m, c) in &p.0 {
            let mut fs = Vec::new();
            for (a, e) in self.monos[*m as usize].clone().iter() {
                let f = match self.atoms[*a as usize].0.clone() {
                    Atom::Var(n) => Factor::Var(n),
                    Atom::Base(b) => Factor::Base(match self.expr_memo.get(a) {
                        Some(x) => x.clone(),
                        None => {
                            let x = Rc::new(self.to_expr(&b, depth + 1));
                            self.expr_memo.insert(*a, x.clone());
                            x
                        }
                    }),
                };
                fs.push((f, *e));
            }
            v.push((*c, fs));
        }
        Expr::Sum(Rc::new(v))
    }
    /// Terms of p and of every base below it, each counted once.
    fn expr_size(&self, p: &Poly) -> usize {
        let mut deep = Default::default();
        self.atoms_deep(p, &mut deep);
        p.0.len()
            + deep
                .iter()
                .map(|a| match &self.atoms[*a as usize].0 {
                    Atom::Base(b) => b.0.len(),
                    _ => 1,
                })
                .sum::<usize>()
    }

    fn atoms_deep(&self, p: &Poly, out: &mut std::collections::BTreeSet<u32>) {
        for (m, _) in &p.0 {
            for (a, _) in self.monos[*m as usize].iter() {
                if out.insert(*a) {
                    if let Atom::Base(b) = &self.atoms[*a as usize].0 {
                        self.atoms_deep(&b.clone(), out);
                    }
                }
            }
        }
    }
    fn var_occurs(&self, p: &Poly, v: u32) -> bool {
        let mut s = Default::default();
        self.atoms_deep(p, &mut s);
        s.contains(&v)
    }
}

fn const_poly(c: F) -> Poly {
    if c.is_zero() {
        Poly(vec![])
    } else {
        Poly(vec![(0, c)])
    }
}

// ---------------------------------------------------------------- job control
pub fn start_run(
    path: PathSpec,
    seed: u64,
    mul_limit: usize,
    op_budget: u64,
    deadline: Option<std::time::Instant>,
) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        *s = State::default();
        s.mul_limit = mul_limit;
        s.op_budget = op_budget;
        s.deadline = deadline;
        s.seed = seed;
        s.active = true;
        s.mono(vec![]);
        s.path = path;
        let facts = s.path.facts.clone();
        // A substitution can make an earlier "differs" fact false: such a path has no instance.
        // Facts are tried one by one, because the false one may be what guards an inverse in
        // another.
        let mut inverse_of_zero = None;
        for f in facts {
            let p = match s.try_build(&f.expr) {
                Ok(p) => p,
                Err(a) => {
                    inverse_of_zero = Some(a);
                    continue;
                }
            };
            if p.0.is_empty() {
                if !f.zero {
                    std::panic::panic_any(PathAbort("infeasible".into()));
                }
                continue;
            }
            if p.0.len() == 1 && p.0[0].0 == 0 {
                if f.zero {
                    std::panic::panic_any(PathAbort("infeasible".into()));
                }
                continue;
            }
            let (_, m) = s.monic(&p);
            if f.zero {
                s.add_rule(&m);
            }
            s.facts.push((m, f.zero));
            s.facts_expr.push(f.clone());
        }
        if let Some(a) = inverse_of_zero {
            std::panic::panic_any(a);
        }
        while let Some(e) = s.path.zeros.pop() {
            let p = s.build(&e);
            match zero_test_poly(&mut s, &p) {
                Zero::Yes => continue,
                Zero::No => std::panic::panic_any(PathAbort("infeasible".into())),
                _ => {}
            }
            let (_, m) = s.monic(&p);
            let m = s.strip_power(m);
            let base = s.path.clone();
            resolve_zero(&mut s, base, &m);
            std::panic::panic_any(PathAbort("split".into()));
        }
    });
}

pub struct RunOut {
    pub obligations: Vec<Obligation>,
    pub pending: Vec<PathSpec>,
    pub path: PathSpec,
    pub forks: usize,
    pub opaque_eq: usize,
    pub nodes: usize,
    pub atoms: usize,
    pub ops: u64,
    pub vars: Vec<String>,
    pub point: BTreeMap<String, String>,
}
pub fn end_run() -> RunOut {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.active = false;
        let point = point_of(&s, 0);
        RunOut {
            obligations: std::mem::take(&mut s.pub_obl),
            pending: std::mem::take(&mut s.pending),
            path: s.path.clone(),
            forks: s.forks,
            opaque_eq: s.opaque_eq,
            nodes: s.nodes.len(),
            atoms: s.atoms.len(),
            ops: s.ops,
            vars: s.nvars.clone(),
            point,
        }
    })
}

fn point_of(s: &State, k: usize) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for n in &s.nvars {
        // the variable's value: its node was registered under var_nodes
        let v = s.var_value(n, k);
        out.insert(n.clone(), to_hex(v));
    }
    out
}
impl State {
    fn var_value(&self, name: &str, k: usize) -> F {
        if let Some((_, c)) = self.path.fixed.iter().find(|(n, _)| n == name) {
            return *c;
        }
        if let Some((_, e)) = self.path.substs.iter().find(|(n, _)| n == name) {
            return self.eval_expr(e, k);
        }
        hash_str(name, self.seed.wrapping_mul(31).wrapping_add(k as u64 + 1))
    }
    fn eval_expr(&self, e: &Expr, k: usize) -> F {
        self.eval_expr_memo(e, k, &mut HashMap::new())
    }
    fn eval_expr_memo(&self, e: &Expr, k: usize, memo: &mut HashMap<*const Expr, F>) -> F {
        let Expr::Sum(ts) = e;
        let mut s = F::zero();
        for (c, fs) in ts.iter() {
            let mut t = *c;
            for (f, ex) in fs {
                let b = match f {
                    Factor::Var(n) => self.var_value(n, k),
                    Factor::Base(b) => match memo.get(&Rc::as_ptr(b)) {
                        Some(x) => *x,
                        None => {
                            let x = self.eval_expr_memo(b, k, memo);
                            memo.insert(Rc::as_ptr(b), x);
                            x
                        }
                    },
                };
                t *= fpow(b, *ex);
            }
            s += t;
        }
        s
    }
}

pub fn to_hex(x: F) -> String {
    let b = x.into_bigint().to_bytes_be();
    let s: String = b.iter().map(|y| format!("{:02x}", y)).collect();
    let t = s.trim_start_matches('0');
    format!("0x{}", if t.is_empty() { "0" } else { t })
}
pub fn from_hex(s: &str) -> F {
    let s = s.trim_start_matches("0x");
    let mut acc = F::zero();
    for c in s.chars() {
        acc = acc * F::from(16u64) + F::from(c.to_digit(16).unwrap() as u64);
    }
    acc
}

// ---------------------------------------------------------------- operations used by the field wrapper
/// A value as seen by the wrapper.
#[derive(Clone, Copy, Debug)]
pub enum Val {
    C(F),
    S(u32),
}

fn parts(s: &State, v: Val) -> (Option<Rc<Poly>>, [F; NFP]) {
    match v {
        Val::C(c) => (Some(Rc::new(const_poly(c))), [c; NFP]),
        Val::S(i) => {
            let Some(n) = s.nodes.get(i as usize) else {
                std::panic::panic_any(Unsupported("symbolic element outlived its run".into()))
            };
            (n.poly.clone(), n.fp)
        }
    }
}
fn finish(s: &mut State, p: Option<Poly>, fp: [F; NFP]) -> Val {
    if let Some(p) = &p {
        if p.0.is_empty() {
            return Val::C(F::zero());
        }
        if p.0.len() == 1 && p.0[0].0 == 0 {
            return Val::C(p.0[0].1);
        }
    }
    Val::S(s.push(p, fp))
}

pub fn var(name: &str) -> Val {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.get_var(name);
        if !s.nvars.iter().any(|n| n == name) {
            s.nvars.push(name.to_string());
        }
        let mut fp = [F::zero(); NFP];
        for k in 0..NFP {
            fp[k] = s.eval(&p, k);
        }
        finish(&mut s, Some(p), fp)
    })
}
pub fn add(a: Val, b: Val) -> Val {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let (pa, fa) = parts(&s, a);
        let (pb, fb) = parts(&s, b);
        let p = match (pa, pb) {
            (Some(x), Some(y)) => Some(s.add_poly(&x, &y, F::one())),
            _ => None,
        };
        let mut fp = fa;
        for k in 0..NFP {
            fp[k] += fb[k];
        }
        finish(&mut s, p, fp)
    })
}
pub fn sub(a: Val, b: Val) -> Val {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let (pa, fa) = parts(&s, a);
        let (pb, fb) = parts(&s, b);
        let p = match (pa, pb) {
            (Some(x), Some(y)) => Some(s.add_poly(&x, &y, -F::one())),
            _ => None,
        };
        let mut fp = fa;
        for k in 0..NFP {
            fp[k] -= fb[k];
        }
        finish(&mut s, p, fp)
    })
}
pub fn mul(a: Val, b: Val) -> Val {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let (pa, fa) = parts(&s, a);
        let (pb, fb) = parts(&s, b);
        let p = match (pa, pb) {
            (Some(x), Some(y)) => {
                let r = s.mul_poly(&x, &y);
                r.map(|r| s.reduce(r))
            }
            (Some(x), None) | (None, Some(x)) if x.0.is_empty() => Some(Poly(vec![])),
            _ => None,
        };
        let mut fp = fa;
        for k in 0..NFP {
            fp[k] *= fb[k];
        }
        finish(&mut s, p, fp)
    })
}
/// Inverse; the caller has already decided (via `is_zero`) that the value is nonzero on this path.
pub fn inv_nonzero(a: Val) -> Val {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let (pa, fa) = parts(&s, a);
        let p = pa.map(|x| s.pow_poly(&x, -1));
        let mut fp = fa;
        for k in 0..NFP {
            fp[k] = fa[k].inverse().unwrap_or(F::zero());
        }
        finish(&mut s, p, fp)
    })
}

enum Zero {
    Yes,
    YesProb,
    No,
    Maybe(Option<Rc<Poly>>),
}

/// Is this value identically zero / never zero / sometimes zero?
fn zero_test(s: &mut State, v: Val) -> Zero {
    let (p, fp) = parts(s, v);
    let Some(p) = p else {
        return if fp.iter().all(|x| x.is_zero()) {
            Zero::YesProb
        } else {
            Zero::Maybe(None)
        };
    };
    zero_test_at(s, p, fp)
}
/// The same for a polynomial whose values at the sample points are not at hand.
fn zero_test_poly(s: &mut State, p: &Poly) -> Zero {
    let mut fp = [F::zero(); NFP];
    for k in 0..NFP {
        fp[k] = s.eval(p, k);
    }
    zero_test_at(s, Rc::new(p.clone()), fp)
}
fn zero_test_at(s: &mut State, p: Rc<Poly>, fp: [F; NFP]) -> Zero {
    if p.0.is_empty() {
        return Zero::Yes;
    }
    if p.0.len() == 1 && p.0[0].0 == 0 {
        return Zero::No;
    }
    if s.has_base(&p) && (s.path.fp_invalid || fp.iter().all(|x| x.is_zero())) {
        let lim = if s.path.fp_invalid {
            s.mul_limit.min(20_000)
        } else {
            s.mul_limit
        };
        match s.normalise(&p, lim) {
            Some(q) if q.0.is_empty() => return Zero::Yes,
            Some(_) => {}
            None => {
                if fp.iter().all(|x| x.is_zero()) {
                    return Zero::YesProb;
                }
            }
        }
    }
    // facts of the path
    let (_, m) = s.monic(&p);
    for (f, z) in &s.facts {
        if *f == m {
            return if *z { Zero::Yes } else { Zero::No };
        }
    }
    // every factor of a monomial known nonzero?
    if p.0.len() == 1 {
        let mono = s.monos[p.0[0].0 as usize].clone();
        let mut all_nz = true;
        for (a, e) in mono.iter() {
            if *e < 0 {
                continue;
            }
            let single = match &s.atoms[*a as usize].0 {
                Atom::Base(b) => (**b).clone(),
                Atom::Var(_) => {
                    let m = s.atom_pow(*a, 1);
                    Poly(vec![(m, F::one())])
                }
            };
            let (_, m1) = s.monic(&single);
            match s.facts.iter().find(|(f, _)| *f == m1) {
                Some((_, true)) => return Zero::Yes,
                Some((_, false)) => {}
                None => all_nz = false,
            }
        }
        if all_nz {
            return Zero::No;
        }
    }
    if !s.facts.is_empty() && s.facts.iter().any(|f| f.1) {
        // multiples (by a scalar, after normalisation) of an assumed-zero fact
        let lim = s.mul_limit.min(20_000);
        if let Some(q) = s.normalise(&p, lim) {
            if q.0.is_empty() {
                return Zero::Yes;
            }
            let zs: Vec<Poly> = s.facts.iter().filter(|f| f.1).map(|f| f.0.clone()).collect();
            for f in zs {
                if let Some(fq) = s.normalise(&f, lim) {
                    if !fq.0.is_empty() && divides_simple(s, &fq, &q, lim) {
                        return Zero::Yes;
                    }
                }
            }
        }
    }
    Zero::Maybe(Some(p))
}

/// q = (scalar * monomial) * f ?
fn divides_simple(s: &mut State, f: &Poly, q: &Poly, _lim: usize) -> bool {
    if f.0.len() != q.0.len() {
        return false;
    }
    // compare as scalar multiples first
    let r = q.0[0].1 * f.0[0].1.inverse().unwrap();
    if f.0
        .iter()
        .zip(q.0.iter())
        .all(|(a, b)| a.0 == b.0 && a.1 * r == b.1)
    {
        return true;
    }
    // candidate monomial: quotient of "gcd" monomials
    let gcd = |s: &State, p: &Poly| -> Vec<(u32, i64)> {
        let mut g: Option<BTreeMap<u32, i64>> = None;
        for (m, _) in &p.0 {
            let cur: BTreeMap<u32, i64> = s.monos[*m as usize].iter().cloned().collect();
            g = Some(match g {
                None => cur,
                Some(old) => {
                    let mut n = BTreeMap::new();
                    for k in old.keys().chain(cur.keys()) {
                        let e = (*old.get(k).unwrap_or(&0)).min(*cur.get(k).unwrap_or(&0));
                        if e != 0 {
                            n.insert(*k, e);
                        }
                    }
                    n
                }
            });
        }
        g.unwrap_or_default().into_iter().collect()
    };
    let gf = gcd(s, f);
    let gq = gcd(s, q);
    let neg: Vec<(u32, i64)> = gf.iter().map(|(a, e)| (*a, -e)).collect();
    let (mf, mq) = (s.mono(neg), s.mono(gq));
    let quo = s.mono_prod(mq, mf);
    let mut v: Vec<(u32, F)> = Vec::new();
    for (m, c) in &f.0 {
        let r = s.mono_prod(*m, quo);
        v.push((r, *c));
    }
    v.sort_unstable_by_key(|x| x.0);
    let r = q.0[0].1 * v[0].1.inverse().unwrap();
    v.iter()
        .zip(q.0.iter())
        .all(|(a, b)| a.0 == b.0 && a.1 * r == b.1)
}

/// Decide a == b on the current path, forking when both outcomes are possible.
pub fn eq(a: Val, b: Val) -> bool {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        return x == y;
    }
    let d = sub(a, b);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        match zero_test(&mut s, d) {
            Zero::Yes => true,
            Zero::YesProb => {
                s.opaque_eq += 1;
                true
            }
            Zero::No => false,
            Zero::Maybe(None) => {
                s.opaque_eq += 1;
                s.path
                    .note
                    .push("equality of values too large for the canonical form".into());
                false
            }
            Zero::Maybe(Some(_)) if s.quiet => false,
            Zero::Maybe(Some(p)) => {
                fork_eq(&mut s, &p);
                false
            }
        }
    })
}

/// e^-1 mod q-1, if it exists
fn root_exp(e: i64) -> Option<Vec<u64>> {
    // q - 1 as big integer; extended gcd via u128-free small e: find k with (k*(q-1)+1) % e == 0
    if e <= 0 || e > 1 << 20 {
        return None;
    }
    let qm1 = (-F::one()).into_bigint();
    let limbs = qm1.0;
    let rem = |l: &[u64], e: u64| {
        l.iter()
            .rev()
            .fold(0u128, |r, x| ((r << 64) | *x as u128) % e as u128) as u64
    };
    let r = rem(&limbs, e as u64);
    for k in 0..e as u64 {
        if ((k as u128 * r as u128 + 1) % e as u128) == 0 {
            // (k*(q-1)+1)/e
            let mut num: Vec<u64> = vec![];
            let mut carry: u128 = 1;
            for l in limbs.iter() {
                let t = *l as u128 * k as u128 + carry;
                num.push(t as u64);
                carry = t >> 64;
            }
            num.push(carry as u64);
            let mut out = vec![0u64; num.len()];
            let mut r: u128 = 0;
            for i in (0..num.len()).rev() {
                let t = (r << 64) | num[i] as u128;
                out[i] = (t / e as u128) as u64;
                r = t % e as u128;
            }
            return Some(out);
        }
    }
    None
}

fn fork_eq(s: &mut State, p: &Rc<Poly>) {
    s.forks += 1;
    s.check_budget();
    let base_path = {
        let mut b = s.path.clone();
        b.facts = s.facts_expr.clone();
        b.depth += 1;
        b
    };
    let (_, monic_orig) = s.monic(p);
    let monic = s.strip_power(monic_orig.clone());
    let size = s.expr_size(&monic);
    // the branch where the two are equal
    if size < 3_000_000 {
        assume_zero(s, base_path, &monic);
    } else {
        s.path.note.push("equal branch too large to explore".into());
        s.opaque_eq += 1;
    }
    // continue on the branch where they differ
    if monic_orig != monic {
        s.facts.push((monic_orig.clone(), false));
    }
    s.facts.push((monic.clone(), false));
    if size < 3_000_000 {
        let e = s.to_expr(&monic, 0);
        s.facts_expr.push(Fact { expr: e, zero: false, hard: false });
    }
}

/// The branch where `p` is zero: solved for a variable when that covers it, otherwise assumed, with
/// instances that only serve refutation. `refine` splits an assumed branch exactly, if it has to.
fn assume_zero(s: &mut State, base: PathSpec, p: &Poly) {
    let cand = linear_in(s, p);
    if cand.iter().any(|c| c.1) {
        return resolve_factor(s, base, p);
    }
    let e = s.to_expr(p, 0);
    let mut b = base.clone();
    // nothing `resolve_zero` could split or solve for?
    let hard = (cand.is_empty() || p.0.len() > 200) && low_powers(s, p).values().all(|e| *e < 0);
    b.facts.push(Fact { expr: e, zero: true, hard });
    b.fp_invalid = true;
    b.note.push("equal branch, assumed".into());
    s.pending.push(b);
    if let Some((v, _)) = cand.first().filter(|_| p.0.len() <= 200) {
        let (name, e, _, _) = solve_linear(s, p, *v);
        let mut b = base;
        b.substs.push((name.clone(), e));
        b.partial = true;
        b.note.push(format!("equal branch, instance solved for {}", name));
        s.pending.push(b);
    } else {
        concrete_instance(s, base, p);
    }
}

/// The path with its assumed equalities turned back into case distinctions, if it has any.
pub fn refine(mut p: PathSpec) -> Option<PathSpec> {
    let (z, rest): (Vec<Fact>, Vec<Fact>) = p.facts.into_iter().partition(|f| f.zero && !f.hard);
    if z.is_empty() {
        return None;
    }
    p.fp_invalid = p.against > 0 || rest.iter().any(|f| f.zero);
    p.facts = rest;
    p.zeros.extend(z.into_iter().rev().map(|f| f.expr));
    Some(p)
}

/// The largest monomial dividing p.
fn low_powers(s: &State, p: &Poly) -> BTreeMap<u32, i64> {
    let mut low: BTreeMap<u32, i64> = BTreeMap::new();
    for (i, (m, _)) in p.0.iter().enumerate() {
        let mo: BTreeMap<u32, i64> = s.monos[*m as usize].iter().cloned().collect();
        if i == 0 {
            low = mo;
            continue;
        }
        for a in mo.keys() {
            low.entry(*a).or_insert(0);
        }
        for (a, e) in low.iter_mut() {
            *e = (*e).min(*mo.get(a).unwrap_or(&0));
        }
    }
    low.retain(|_, e| *e != 0);
    low
}

/// The paths on which `p` (monic, not constant) is zero, as refinements of `base`: together they
/// cover every assignment of `base` with p = 0. A variable is solved for wherever p is linear in
/// it, products are split; what is left is assumed, with concrete instances beside it that only
/// serve refutation.
fn resolve_zero(s: &mut State, base: PathSpec, p: &Poly) {
    let name_of = |s: &State, v: u32| match &s.atoms[v as usize].0 {
        Atom::Var(n) => n.clone(),
        _ => unreachable!(),
    };
    // multiply by the inverted atoms (nonzero on this path), split off common factors
    let low = low_powers(s, p);
    let mut q = p.clone();
    if !low.is_empty() {
        let k = s.mono(low.iter().map(|(a, e)| (*a, -e)).collect());
        let mut v = vec![];
        for (m, c) in &p.0 {
            let m = s.mono_prod(*m, k);
            v.push((m, *c));
        }
        v.sort_unstable_by_key(|x| x.0);
        q = s.monic(&Poly(v)).1;
        let mut seen: Vec<Expr> = vec![];
        for (a, _) in low.iter().filter(|(_, e)| **e > 0) {
            let one = s.atom_pow(*a, 1);
            let atom = Poly(vec![(one, F::one())]);
            if matches!(zero_test_poly(s, &atom), Zero::No) {
                continue;
            }
            let mut b = base.clone();
            b.facts.extend(seen.iter().map(|e| Fact { expr: e.clone(), zero: false, hard: false }));
            if s.is_base(*a) {
                let f = s.strip_power(atom);
                let e = s.to_expr(&f, 0);
                b.note.push("equal branch, a factor".into());
                seen.push(e.clone());
                b.zeros.push(e);
            } else {
                let n = name_of(s, *a);
                seen.push(s.to_expr(&atom, 0));
                b.note.push(format!("equal branch, {} zero", n));
                b.substs.push((n, Expr::Sum(Rc::new(vec![]))));
            }
            s.pending.push(b);
        }
        if q.0.len() == 1 && q.0[0].0 == 0 {
            return;
        }
        let mut b = base.clone();
        b.facts.extend(seen.into_iter().map(|e| Fact { expr: e, zero: false, hard: false }));
        return resolve_factor(s, b, &q);
    }
    resolve_factor(s, base, &q)
}

/// The variables p is linear in (and which its bases do not mention), with whether the cofactor is
/// a constant.
fn linear_in(s: &State, p: &Poly) -> Vec<(u32, bool)> {
    let mut deep = Default::default();
    s.atoms_deep(p, &mut deep);
    let vars: Vec<u32> = deep.iter().cloned().filter(|a| !s.is_base(*a)).collect();
    let mut cand: Vec<(u32, bool)> = Vec::new(); // (var, constant coefficient)
    for v in vars.iter().rev() {
        let mut ok = true;
        let mut konst = true;
        for (m, _) in &p.0 {
            let mo = s.monos[*m as usize].clone();
            let e = mo.iter().find(|x| x.0 == *v).map_or(0, |x| x.1);
            ok &= e == 0 || e == 1;
            konst &= e == 0 || mo.len() == 1;
            for (a, _) in mo.iter() {
                if let Atom::Base(b) = &s.atoms[*a as usize].0 {
                    let b = b.clone();
                    ok &= !s.var_occurs(&b, *v);
                }
            }
            if !ok {
                break;
            }
        }
        if ok {
            cand.push((*v, konst));
        }
    }
    cand
}

/// p = cof * v + rest
fn split_linear(s: &mut State, p: &Poly, v: u32) -> (Poly, Poly) {
    let (mut rest, mut cof) = (vec![], vec![]);
    for (m, c) in &p.0 {
        let mo = s.monos[*m as usize].clone();
        if mo.iter().any(|x| x.0 == v) {
            let r: Vec<(u32, i64)> = mo.iter().filter(|x| x.0 != v).cloned().collect();
            let r = s.mono(r);
            cof.push((r, *c));
        } else {
            rest.push((*m, *c));
        }
    }
    cof.sort_unstable_by_key(|x| x.0);
    (Poly(cof), Poly(rest))
}

/// The name of v, -rest / cof, cof and rest.
fn solve_linear(s: &mut State, p: &Poly, v: u32) -> (String, Expr, Expr, Expr) {
    let (cof, rest) = split_linear(s, p, v);
    let neg = s.scale(&rest, -F::one());
    let neg = s.to_expr(&neg, 0);
    let rest = s.to_expr(&rest, 0);
    let cof = s.to_expr(&cof, 0);
    let e = Expr::Sum(Rc::new(vec![(
        F::one(),
        vec![(Factor::Base(Rc::new(neg)), 1), (Factor::Base(Rc::new(cof.clone())), -1)],
    )]));
    let name = match &s.atoms[v as usize].0 {
        Atom::Var(n) => n.clone(),
        _ => unreachable!(),
    };
    (name, e, cof, rest)
}

/// `resolve_zero` for a polynomial without a monomial factor.
fn resolve_factor(s: &mut State, base: PathSpec, p: &Poly) {
    let name_of = |s: &State, v: u32| match &s.atoms[v as usize].0 {
        Atom::Var(n) => n.clone(),
        _ => unreachable!(),
    };
    let cand = linear_in(s, p);
    if let Some((v, _)) = cand.iter().find(|c| c.1) {
        // v = -rest / coef covers everything
        let name = name_of(s, *v);
        let (cof, rest) = split_linear(s, p, *v);
        let k = -cof.0[0].1.inverse().unwrap();
        let e = s.scale(&rest, k);
        let e = s.to_expr(&e, 0);
        let mut b = base;
        b.substs.push((name.clone(), e));
        b.note.push(format!("equal branch, {} solved for", name));
        s.pending.push(b);
        return;
    }
    if !cand.is_empty() && p.0.len() <= 200 {
        // v = -rest / cof where cof is nonzero, and cof = rest = 0
        let mut best: Option<(usize, u32, bool)> = None;
        for (v, _) in &cand {
            let (cof, _) = split_linear(s, p, *v);
            let nz = matches!(zero_test_poly(s, &cof), Zero::No);
            let key = if nz { 0 } else { cof.0.len() };
            if best.as_ref().map_or(true, |b| key < b.0) {
                best = Some((key, *v, nz));
            }
        }
        let (_, v, nz) = best.unwrap();
        let (name, e, cof, rest) = solve_linear(s, p, v);
        let mut b = base.clone();
        b.substs.push((name.clone(), e));
        b.note.push(format!("equal branch, {} solved for", name));
        if !nz {
            b.facts.push(Fact { expr: cof.clone(), zero: false, hard: false });
        }
        s.pending.push(b);
        if !nz {
            let mut b = base;
            b.zeros.push(rest);
            b.zeros.push(cof);
            b.note.push(format!("equal branch, {} free", name));
            s.pending.push(b);
        }
        return;
    }
    // assume the equality (proof), and look at concrete instances (refutation)
    let e = s.to_expr(p, 0);
    let mut b = base.clone();
    b.facts.push(Fact { expr: e, zero: true, hard: true });
    b.fp_invalid = true;
    b.note.push("equal branch, assumed".into());
    s.pending.push(b);
    concrete_instance(s, base, p);
}

fn concrete_instance(s: &mut State, base: PathSpec, p: &Poly) {
    if s.pending.iter().filter(|b| b.partial).count() >= 40 {
        // enough instances to look at
    } else if let Some(fixed) = solve_concrete(s, p).or_else(|| solve_frames(s, p)) {
        let mut b = base;
        b.fixed.extend(fixed);
        b.partial = true;
        b.note.push("equal branch, concrete instance".into());
        s.pending.push(b);
    }
}

/// Try to find concrete values of the base variables with p = 0 by fixing all variables but one
/// and undoing powers and affine maps.
fn solve_concrete(s: &mut State, p: &Poly) -> Option<Vec<(String, F)>> {
    let mut deep = Default::default();
    s.atoms_deep(p, &mut deep);
    let vars: Vec<u32> = deep.iter().cloned().filter(|a| !s.is_base(*a)).collect();
    for v in vars.iter().rev() {
        // univariate view: returns Lin(a,b) meaning a*X+b where X is v or an invertible power tower of v
        if let Some(x) = solve_for(s, p, F::zero(), *v, 0) {
            let mut out = vec![];
            for w in &vars {
                let n = match &s.atoms[*w as usize].0 {
                    Atom::Var(n) => n.clone(),
                    _ => continue,
                };
                if w == v {
                    out.push((n, x));
                } else {
                    let val = s.atoms[*w as usize].1[0];
                    out.push((n, val));
                }
            }
            return Some(out);
        }
    }
    None
}
/// Solve p(v) = target with every other variable at its first random value.
fn solve_for(s: &State, p: &Poly, target: F, v: u32, depth: usize) -> Option<F> {
    if depth > 60 {
        return None;
    }
    let mut b = F::zero();
    let mut a = F::zero();
    let mut key: Option<(u32, i64)> = None;
    for (m, c) in &p.0 {
        let mut t = *c;
        let mut dep: Option<(u32, i64)> = None;
        for (at, e) in s.monos[*m as usize].iter() {
            let depends = *at == v
                || match &s.atoms[*at as usize].0 {
                    Atom::Base(bp) => s.var_occurs(bp, v),
                    _ => false,
                };
            if depends {
                if dep.is_some() {
                    return None;
                }
                dep = Some((*at, *e));
            } else {
                t *= fpow(s.atoms[*at as usize].1[0], *e);
            }
        }
        match dep {
            None => b += t,
            Some(k) => {
                if key.is_some() && key != Some(k) {
                    return None;
                }
                key = Some(k);
                a += t;
            }
        }
    }
    let (at, e) = key?;
    let val = (target - b) * a.inverse()?;
    let root = if e == 1 {
        val
    } else if e == -1 {
        val.inverse()?
    } else {
        let ex = root_exp(e.abs())?;
        let r = val.pow(&ex);
        let r = if e < 0 { r.inverse()? } else { r };
        if fpow(r, e) != val {
            return None;
        }
        r
    };
    if at == v {
        return Some(root);
    }
    match &s.atoms[at as usize].0 {
        Atom::Base(bp) => {
            let bp = bp.clone();
            solve_for(s, &bp, root, v, depth + 1)
        }
        _ => None,
    }
}

impl State {
    fn eval_at(&self, p: &Poly, a: &HashMap<u32, F>, memo: &mut HashMap<u32, F>) -> F {
        let mut sum = F::zero();
        for (m, c) in &p.0 {
            let mut t = *c;
            for (at, e) in self.monos[*m as usize].iter() {
                let v = match &self.atoms[*at as usize].0 {
                    Atom::Var(_) => a.get(at).copied().unwrap_or(self.atoms[*at as usize].1[0]),
                    Atom::Base(b) => {
                        if let Some(v) = memo.get(at) {
                            *v
                        } else {
                            let v = self.eval_at(b, a, memo);
                            memo.insert(*at, v);
                            v
                        }
                    }
                };
                t *= fpow(v, *e);
            }
            sum += t;
        }
        sum
    }
}
/// Find inputs with p = 0 by walking a line in one of the recorded intermediate state spaces, where
/// p has low degree.
fn solve_frames(s: &State, p: &Poly) -> Option<Vec<(String, F)>> {
    const DEG: usize = 20;
    let fr = s.frames.clone()?;
    let ids: Vec<u32> = fr
        .vars
        .iter()
        .map(|n| s.var_ix.get(n).copied())
        .collect::<Option<Vec<_>>>()?;
    let n = ids.len();
    let mut seed = s.seed ^ 0x5eed_f4a3;
    for k in 0..fr.count {
        for attempt in 0..3 {
            let base: Vec<F> = (0..n).map(|_| random_f(&mut seed)).collect();
            let dir: Vec<F> = (0..n).map(|_| random_f(&mut seed)).collect();
            let at = |l: F| -> (Vec<F>, F) {
                let st: Vec<F> = base.iter().zip(&dir).map(|(b, d)| *b + l * d).collect();
                let x = (fr.invert)(k, &st);
                let a: HashMap<u32, F> = ids.iter().cloned().zip(x.iter().cloned()).collect();
                let v = s.eval_at(p, &a, &mut HashMap::new());
                (x, v)
            };
            let Some(poly) = interpolate_low(&|l| at(l).1, DEG) else {
                break;
            };
            if poly.len() < 2 {
                break;
            }
            if let Some(r) = find_root(&poly, &mut seed) {
                let (x, v) = at(r);
                if v.is_zero() {
                    return Some(fr.vars.iter().cloned().zip(x).collect());
                }
            }
            let _ = attempt;
        }
    }
    None
}
/// The polynomial through f(0), f(1), ... when its degree is at most deg (checked at extra points).
fn interpolate_low(f: &dyn Fn(F) -> F, deg: usize) -> Option<Vec<F>> {
    // Newton's divided differences; stop as soon as two consecutive extra points agree
    let mut xs: Vec<F> = vec![];
    let mut coef: Vec<F> = vec![]; // Newton coefficients
    let mut agree = 0;
    for i in 0..deg + 3 {
        let x = F::from((i * i + 3 * i + 1) as u64);
        let y = f(x);
        let mut acc = F::zero();
        let mut w = F::one();
        for (c, xi) in coef.iter().zip(&xs) {
            acc += *c * w;
            w *= x - xi;
        }
        let d = (y - acc) * w.inverse()?;
        if d.is_zero() {
            agree += 1;
            if agree == 2 {
                break;
            }
        } else {
            agree = 0;
        }
        coef.push(d);
        xs.push(x);
    }
    if agree < 2 {
        return None;
    }
    // expand
    let mut out = vec![F::zero(); coef.len() + 1];
    let mut w = vec![F::one()];
    for (c, xi) in coef.iter().zip(&xs) {
        for (i, a) in w.iter().enumerate() {
            out[i] += *c * a;
        }
        let mut nw = vec![F::zero(); w.len() + 1];
        for (i, a) in w.iter().enumerate() {
            nw[i + 1] += *a;
            nw[i] -= *a * xi;
        }
        w = nw;
    }
    while out.last().map_or(false, |x| x.is_zero()) {
        out.pop();
    }
    Some(out)
}
fn poly_rem(a: &[F], b: &[F]) -> Vec<F> {
    let mut r = a.to_vec();
    let lc = b.last().unwrap().inverse().unwrap();
    while r.len() >= b.len() {
        let k = *r.last().unwrap() * lc;
        let o = r.len() - b.len();
        for (i, x) in b.iter().enumerate() {
            r[o + i] -= k * x;
        }
        r.pop();
        while r.last().map_or(false, |x| x.is_zero()) {
            r.pop();
        }
    }
    r
}
fn poly_mulmod(a: &[F], b: &[F], m: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += *x * y;
        }
    }
    poly_rem(&o, m)
}
fn poly_gcd(a: &[F], b: &[F]) -> Vec<F> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    while !b.is_empty() {
        let r = poly_rem(&a, &b);
        a = b;
        b = r;
    }
    a
}
fn poly_powmod(x: &[F], e: &[u64], m: &[F]) -> Vec<F> {
    let mut acc = poly_rem(&[F::one()], m);
    for l in e.iter().rev() {
        for i in (0..64).rev() {
            acc = poly_mulmod(&acc, &acc, m);
            if (l >> i) & 1 == 1 {
                acc = poly_mulmod(&acc, x, m);
            }
        }
    }
    acc
}
fn poly_trim(mut a: Vec<F>) -> Vec<F> {
    while a.last().map_or(false, |x| x.is_zero()) {
        a.pop();
    }
    a
}
/// A root in F_q, if there is one.
pub fn find_root(f: &[F], seed: &mut u64) -> Option<F> {
    let f = poly_trim(f.to_vec());
    if f.len() < 2 {
        return None;
    }
    let qm1 = (-F::one()).into_bigint();
    let half: Vec<u64> = {
        let mut h = qm1;
        h.div2();
        h.0.to_vec()
    };
    if f.len() == 2 {
        return Some(-f[0] * f[1].inverse()?);
    }
    // product of the linear factors
    let x = [F::zero(), F::one()];
    let mut xq = poly_powmod(&x, &qm1.0, &f);
    xq = poly_mulmod(&xq, &x, &f);
    let mut d = xq;
    d.resize(d.len().max(2), F::zero());
    d[1] -= F::one();
    let d = poly_trim(d);
    let mut g = if d.is_empty() { f.clone() } else { poly_gcd(&f, &d) };
    for _ in 0..200 {
        if g.len() < 2 {
            return None;
        }
        if g.len() == 2 {
            return Some(-g[0] * g[1].inverse()?);
        }
        let r = [random_f(seed), F::one()];
        let mut h = poly_powmod(&r, &half, &g);
        h.resize(h.len().max(1), F::zero());
        h[0] -= F::one();
        let h = poly_trim(h);
        if h.is_empty() {
            continue;
        }
        let k = poly_gcd(&g, &h);
        if k.len() >= 2 && k.len() < g.len() {
            g = k;
        }
    }
    None
}

/// A decision on symbolic values that is not an equation (ordering, bits): explore both outcomes.
pub fn opaque_decision(what: &str, at_point: bool) -> bool {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let pos = s.opaque_pos;
        s.opaque_pos += 1;
        if pos < s.path.opaque.len() {
            return s.path.opaque[pos];
        }
        s.forks += 1;
        let mut b = s.path.clone();
        b.facts = s.facts_expr.clone();
        b.depth += 1;
        b.opaque.push(!at_point);
        b.fp_invalid = true;
        b.against += 1;
        b.note.push(format!("{} decided against the sample point", what));
        s.pending.push(b);
        s.path.opaque.push(at_point);
        s.path
            .note
            .push(format!("{} decided as at the sample point", what));
        at_point
    })
}
/// The code looks at the representation of a symbolic value: continue with the sample point's
/// bytes; nothing on this path can be proved any more, only refuted.
pub fn observe_bytes(v: Val) -> F {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        // printing a value in a panic message decides nothing
        if !s.bytes_seen && !std::thread::panicking() {
            s.bytes_seen = true;
            s.path
                .note
                .push("the code observes the byte encoding of a symbolic value".into());
        }
        parts(&s, v).1[0]
    })
}
/// value at the first random assignment
pub fn point_value(v: Val) -> F {
    ST.with(|s| parts(&s.borrow(), v).1[0])
}
pub fn unsupported(what: &str) -> ! {
    std::panic::panic_any(Unsupported(what.into()))
}
pub fn show(v: Val) -> String {
    match v {
        Val::C(c) => to_hex(c),
        Val::S(i) => format!("<symbolic #{}>", i),
    }
}

// ---------------------------------------------------------------- obligations
pub fn oblige_eq(label: &str, a: Val, b: Val) -> bool {
    let d = sub(a, b);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let s = &mut *s;
        let prob_path = s.opaque_eq > 0;
        let st = match zero_test(s, d) {
            Zero::Yes => {
                if prob_path {
                    Status::ProvedProb
                } else {
                    Status::ProvedExact
                }
            }
            Zero::YesProb => Status::ProvedProb,
            Zero::No | Zero::Maybe(_) => {
                if s.path.fp_invalid {
                    Status::Unknown(format!(
                        "not provable under the path's assumptions ({})",
                        s.path.note.join("; ")
                    ))
                } else {
                    let (_, fp) = parts(s, d);
                    match (0..NFP).find(|k| !fp[*k].is_zero()) {
                        Some(k) => Status::Refuted(point_of(s, k)),
                        None => Status::Unknown("no distinguishing point".into()),
                    }
                }
            }
        };
        let ok = matches!(st, Status::ProvedExact | Status::ProvedProb);
        let st = if ok && s.bytes_seen {
            Status::Unknown("depends on the byte encoding of a symbolic value".into())
        } else {
            st
        };
        s.pub_obl.push(Obligation {
            label: label.to_string(),
            status: st,
        });
        ok
    })
}
/// A postcondition that is a plain boolean on this path.
pub fn oblige(label: &str, ok: bool) -> bool {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let st = if ok && s.bytes_seen {
            Status::Unknown("depends on the byte encoding of a symbolic value".into())
        } else if ok {
            if s.opaque_eq > 0 {
                Status::ProvedProb
            } else {
                Status::ProvedExact
            }
        } else if s.path.fp_invalid {
            Status::Unknown(format!(
                "fails under the path's assumptions ({})",
                s.path.note.join("; ")
            ))
        } else {
            Status::Refuted(point_of(&s, 0))
        };
        s.pub_obl.push(Obligation {
            label: label.to_string(),
            status: st,
        });
        ok
    })
}
pub fn unknown(label: &str, why: &str) {
    ST.with(|s| {
        s.borrow_mut().pub_obl.push(Obligation {
            label: label.to_string(),
            status: Status::Unknown(why.to_string()),
        })
    })
}
/// Is the value a constant (no dependence on any symbolic input)?
pub fn is_const(v: Val) -> bool {
    matches!(v, Val::C(_))
}

// ---------------------------------------------------------------- structural views (for layer peeling)
#[derive(Clone, Debug)]
pub struct LinView {
    /// coefficient per (atom, exponent); constant term apart
    pub terms: Vec<((u32, i64), F)>,
    pub konst: F,
}
/// View as an affine form over single-atom powers; None if some monomial has two atoms.
pub fn lin_view(v: Val) -> Option<LinView> {
    ST.with(|s| {
        let s = s.borrow();
        let (p, _) = parts(&s, v);
        let p = p?;
        lin_view_poly(&s, &p)
    })
}
fn lin_view_poly(s: &State, p: &Poly) -> Option<LinView> {
    let mut terms = vec![];
    let mut konst = F::zero();
    for (m, c) in &p.0 {
        let mo = &s.monos[*m as usize];
        match mo.len() {
            0 => konst = *c,
            1 => terms.push((mo[0], *c)),
            _ => return None,
        }
    }
    Some(LinView { terms, konst })
}
/// The polynomial of a base atom (monic), or None for a variable.
pub fn base_view(atom: u32) -> Option<Option<LinView>> {
    ST.with(|s| {
        let s = s.borrow();
        match &s.atoms[atom as usize].0 {
            Atom::Var(_) => None,
            Atom::Base(b) => Some(lin_view_poly(&s, b)),
        }
    })
}
pub fn atom_name(atom: u32) -> String {
    ST.with(|s| match &s.borrow().atoms[atom as usize].0 {
        Atom::Var(n) => n.clone(),
        Atom::Base(_) => format!("base#{}", atom),
    })
}
pub fn atom_point(atom: u32, k: usize) -> F {
    ST.with(|s| s.borrow().atoms[atom as usize].1[k])
}
pub fn path_notes() -> Vec<String> {
    ST.with(|s| s.borrow().path.note.clone())
}
pub fn root_of(x: F, e: i64) -> Option<F> {
    let ex = root_exp(e.abs())?;
    let r = x.pow(&ex);
    let r = if e < 0 { r.inverse()? } else { r };
    if fpow(r, e) == x {
        Some(r)
    } else {
        None
    }
}
pub fn power_is_bijective(e: i64) -> bool {
    root_exp(e.abs()).is_some()
}
pub fn fpow_pub(x: F, e: i64) -> F {
    fpow(x, e)
}
