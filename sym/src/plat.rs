//! Symbolic platform: the harness runs on symbolic field elements and its postconditions become
//! verification conditions.
use crate::props::spec::{self, Layer, Params};
use decaf377::Fq;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symx::{Fld, Val};

pub struct Ctx {
    pub excluded: Option<String>,
}

/// Library code called by the harness, not by the code under contract.
pub fn library<T>(f: impl FnOnce() -> T) -> T {
    symx::quiet(f)
}
pub fn sqrt(_: Fq) -> Option<Fq> {
    None
}
fn conc(x: &Fq) -> Option<Fld> {
    match x.to_val() {
        Val::C(c) => Some(c),
        _ => None,
    }
}

impl Ctx {
    pub fn var(&mut self, name: &str) -> Fq {
        Fq::from_val(symx::var(name))
    }
    pub fn eq(&mut self, label: &str, a: Fq, b: Fq) {
        symx::oblige_eq(label, a.to_val(), b.to_val());
    }
    pub fn ok(&mut self, label: &str, v: bool) {
        symx::oblige(label, v);
    }
    pub fn constant(&mut self, label: &str, v: Fq) {
        symx::oblige(label, !v.is_sym());
    }
    fn rethrow(e: Box<dyn std::any::Any + Send>) {
        if e.is::<symx::Unsupported>() || e.is::<symx::PathAbort>() {
            std::panic::resume_unwind(e);
        }
    }
    pub fn try_run<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(e) => {
                Self::rethrow(e);
                None
            }
        }
    }
    pub fn attempt<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        let r = self.try_run(f);
        symx::oblige(label, r.is_some());
        r
    }
    pub fn panics<T>(&mut self, label: &str, should: bool, f: impl FnOnce() -> T) {
        let r = self.try_run(f);
        let what = if should { "is refused" } else { "is accepted" };
        symx::oblige(&format!("{label} {what}"), r.is_none() == should);
    }
    pub fn excluded(&mut self, why: &str) {
        self.excluded = Some(why.to_string());
    }
    pub fn given(&mut self, _: &str) -> Option<u64> {
        None
    }
    pub fn unproved(&mut self, label: &str, why: &str, _: impl FnOnce(u64) -> bool) {
        symx::unknown(label, why);
    }
    pub fn trace_spec(&mut self, p: &Params, state: &[Fq]) {
        let mut names = vec![];
        for x in state {
            let Some(l) = symx::lin_view(x.to_val()) else { return };
            if l.terms.len() != 1 || l.terms[0].0 .1 != 1 || symx::base_view(l.terms[0].0 .0).is_some() {
                return;
            }
            let n = symx::atom_name(l.terms[0].0 .0);
            if names.contains(&n) {
                return;
            }
            names.push(n);
        }
        if p.arc.len() < p.rf + p.rp || p.mds.iter().flatten().chain(p.arc.iter().flatten()).any(|x| x.is_sym()) {
            return;
        }
        let Some(inv) = spec::inverse(&p.mds) else { return };
        let ls = spec::layers(p, None);
        let at: Vec<usize> =
            ls.iter().enumerate().filter(|(_, l)| matches!(l, Layer::Sub0 | Layer::SubAll)).map(|x| x.0).collect();
        let p = p.clone();
        let count = at.len() + 1;
        let total = ls.len();
        symx::set_frames(symx::Frames {
            vars: names,
            count,
            invert: std::rc::Rc::new(move |k, s| {
                let mut s: Vec<Fq> = s.iter().map(|x| Fq::from_val(Val::C(*x))).collect();
                let end = at.get(k).copied().unwrap_or(total);
                for l in ls[..end].iter().rev() {
                    match l {
                        Layer::Mix(_) => s = spec::mat_vec(&inv, &s),
                        l => s = spec::undo(&p, std::slice::from_ref(l), &s).unwrap_or(s),
                    }
                }
                s.iter().map(|x| conc(x).unwrap()).collect()
            }),
        });
    }
    /// `out` is an injective function of `x`, shown by undoing the layers its canonical form exhibits.
    /// On a run that met value-dependent branches: the reference is injective and `out` equals it on
    /// every path.
    pub fn injective(
        &mut self,
        label: &str,
        x: &[Fq],
        out: &[Fq],
        _run: &dyn Fn(&[Fq]) -> Vec<Fq>,
        reference: &dyn Fn(&[Fq]) -> Option<Vec<Fq>>,
        _candidates: &dyn Fn() -> Vec<(Vec<Fq>, Vec<Fq>)>,
        _model: &Params,
    ) {
        let (forks, depth) = symx::path_state();
        if forks == 0 && depth == 0 {
            match peel(x, out) {
                Ok(n) => {
                    symx::oblige(&format!("{label} ({n} layers undone)"), true);
                }
                Err(e) => symx::unknown(label, &e),
            }
        } else {
            let r = if depth == 0 { reference(x) } else { reference(x) };
            match r {
                None => symx::unknown(label, "value-dependent branches and no reference to compare with"),
                Some(r) => {
                    if depth == 0 {
                        match peel(x, &r) {
                            Ok(_) => {
                                symx::oblige(&format!("{label} (reference)"), true);
                            }
                            Err(e) => symx::unknown(label, &e),
                        }
                    }
                    for (i, (a, b)) in out.iter().zip(&r).enumerate() {
                        self.eq(&format!("{label} (word {i} equals the bijective reference)"), *a, *b);
                    }
                }
            }
        }
    }
}

type Key = (u32, i64);
#[derive(Clone)]
struct Row {
    t: std::collections::BTreeMap<Key, Fld>,
}
fn row(v: &Fq) -> Option<Row> {
    let l = symx::lin_view(v.to_val())?;
    Some(Row { t: l.terms.into_iter().collect() })
}
fn is0(f: &Fld) -> bool {
    *f == Fld::from(0u64)
}
fn inv(f: &Fld) -> Fld {
    use ark_ff::Field;
    f.inverse().unwrap()
}
fn axpy(a: &mut Row, k: Fld, b: &Row) {
    for (key, c) in &b.t {
        let e = a.t.entry(*key).or_insert(Fld::from(0u64));
        *e += k * c;
        if is0(e) {
            a.t.remove(key);
        }
    }
}
/// Is `target` in the span of `rows`?
fn in_span(rows: &[Row], target: &Row) -> bool {
    let mut basis: Vec<(Key, Row)> = vec![];
    let reduce = |basis: &Vec<(Key, Row)>, r: &mut Row| {
        for (k, b) in basis {
            if let Some(c) = r.t.get(k).copied() {
                axpy(r, -c, b);
            }
        }
    };
    for r in rows {
        let mut r = r.clone();
        reduce(&basis, &mut r);
        let Some((k, c)) = r.t.iter().next_back().map(|(k, c)| (*k, *c)) else { continue };
        let ic = inv(&c);
        for v in r.t.values_mut() {
            *v *= ic;
        }
        for (_, b) in basis.iter_mut() {
            if let Some(c) = b.t.get(&k).copied() {
                axpy(b, -c, &r);
            }
        }
        basis.push((k, r));
    }
    let mut t = target.clone();
    reduce(&basis, &mut t);
    t.t.is_empty()
}
/// Show that the outputs determine the inputs.  Number of S-box layers undone, or what stopped it.
fn peel(x: &[Fq], out: &[Fq]) -> Result<usize, String> {
    let n = x.len();
    if out.len() != n {
        return Err("as many output words as input words expected".into());
    }
    let mut rows: Vec<Row> = vec![];
    for (i, o) in out.iter().enumerate() {
        rows.push(row(o).ok_or(format!("output word {i} is not an affine combination of S-box outputs"))?);
    }
    let mut inputs = std::collections::BTreeSet::new();
    for v in x {
        let r = row(v).ok_or("input is not a variable")?;
        if r.t.len() != 1 {
            return Err("input is not a variable".into());
        }
        inputs.insert(*r.t.keys().next().unwrap());
    }
    let mut undone = 0;
    loop {
        // newest S-box output
        let mut top: Option<Key> = None;
        for r in &rows {
            for k in r.t.keys() {
                if symx::base_view(k.0).is_some() && top.map_or(true, |t| *k > t) {
                    top = Some(*k);
                }
            }
        }
        let Some(key) = top else { break };
        let p = (0..n).find(|i| rows[*i].t.contains_key(&key)).unwrap();
        let c = rows[p].t[&key];
        let pivot = rows[p].clone();
        for i in 0..n {
            if i != p {
                if let Some(k) = rows[i].t.get(&key).copied() {
                    axpy(&mut rows[i], -(k * inv(&c)), &pivot);
                }
            }
        }
        let mut rest = rows[p].clone();
        rest.t.remove(&key);
        let others: Vec<Row> = (0..n).filter(|i| *i != p).map(|i| rows[i].clone()).collect();
        if !in_span(&others, &rest) {
            return Err(format!("after undoing {undone} S-boxes, an S-box output is not determined by the output words"));
        }
        if !symx::power_is_bijective(key.1) {
            return Err(format!("x^{} is not a bijection of F_q", key.1));
        }
        let b = symx::base_view(key.0).unwrap().ok_or("S-box argument is not affine")?;
        rows[p] = Row { t: b.terms.into_iter().collect() };
        undone += 1;
        if undone > 100_000 {
            return Err("too many layers".into());
        }
    }
    // affine in plain variables now
    for r in &rows {
        for k in r.t.keys() {
            if !inputs.contains(k) {
                return Err("an output depends on something that is not an input".into());
            }
        }
    }
    for k in &inputs {
        let unit = Row { t: [(*k, Fld::from(1u64))].into_iter().collect() };
        if !in_span(&rows, &unit) {
            return Err(format!("after undoing {undone} S-boxes the inputs are not determined"));
        }
    }
    Ok(undone)
}
