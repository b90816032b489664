//! C08 - C12: matrices.
use super::spec;
use super::*;
use crate::plat::Ctx;
use poseidon_parameters::v1::*;

fn chk<M: MatrixOperations>(ctx: &mut Ctx, what: &str, m: &M, want: &[Vec<Fq>]) {
    let (r, c) = (want.len(), want.first().map_or(m.n_cols(), |x| x.len()));
    ctx.ok(&format!("{what}/ensures n_rows"), m.n_rows() == r);
    ctx.ok(&format!("{what}/ensures n_cols"), m.n_cols() == c);
    if m.elements().len() != r * c {
        ctx.ok(&format!("{what}/ensures element count"), false);
        return;
    }
    for i in 0..r {
        for j in 0..c {
            ctx.eq(&format!("{what}/ensures element ({i},{j})"), m.elements()[i * c + j], want[i][j]);
        }
    }
}
fn chk_access<M: MatrixOperations>(ctx: &mut Ctx, what: &str, m: &M, want: &[Vec<Fq>]) {
    chk(ctx, what, m, want);
    for (i, row) in want.iter().enumerate() {
        for (j, x) in row.iter().enumerate() {
            if let Some(e) = ctx.attempt(&format!("{what}/get_element({i},{j})/no-panic"), || m.get_element(i, j)) {
                ctx.eq(&format!("{what}/get_element({i},{j})"), e, *x);
            }
        }
    }
    if let Some(rows) = ctx.attempt(&format!("{what}/iter_rows/no-panic"), || {
        m.iter_rows().map(|r| r.to_vec()).collect::<Vec<_>>()
    }) {
        ctx.ok(
            &format!("{what}/iter_rows yields the rows"),
            rows.len() == want.len() && rows.iter().zip(want).all(|(a, b)| a.len() == b.len()),
        );
        for (i, (a, b)) in rows.iter().zip(want).enumerate() {
            for (j, (x, y)) in a.iter().zip(b).enumerate() {
                ctx.eq(&format!("{what}/iter_rows({i})[{j}]"), *x, *y);
            }
        }
    }
}
fn chk_set<M: MatrixOperations + Clone>(ctx: &mut Ctx, what: &str, m: &M, want: &[Vec<Fq>]) {
    let x = ctx.var("new_value");
    for i in 0..want.len() {
        for j in 0..want[0].len() {
            let mut n = m.clone();
            let lab = format!("{what}/set_element({i},{j})");
            if ctx.attempt(&format!("{lab}/no-panic"), || n.set_element(i, j, x)).is_some() {
                let mut w = want.to_vec();
                w[i][j] = x;
                chk(ctx, &lab, &n, &w);
            }
        }
    }
}
fn map2(a: &[Vec<Fq>], b: &[Vec<Fq>], f: impl Fn(Fq, Fq) -> Fq) -> Vec<Vec<Fq>> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| f(*p, *q)).collect()).collect()
}
fn scaled(a: &[Vec<Fq>], k: Fq) -> Vec<Vec<Fq>> {
    a.iter().map(|r| r.iter().map(|x| *x * k).collect()).collect()
}
fn ident(n: usize) -> Vec<Vec<Fq>> {
    (0..n).map(|i| (0..n).map(|j| if i == j { spec::one() } else { spec::zero() }).collect()).collect()
}

fn rect<const R: usize, const C: usize, const N: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", R, C);
    let b = vec2(ctx, "b", R, C);
    let k = ctx.var("k");
    let at = spec::transpose(&a);
    let ab = map2(&a, &b, |x, y| x * y);
    // Matrix
    if let Some(m) = ctx.attempt("Matrix::new/no-panic", || Matrix::<R, C, N>::new(&flat(&a))) {
        chk_access(ctx, "Matrix::new", &m, &a);
        chk_set(ctx, "Matrix", &m, &a);
        if let Some(t) = ctx.attempt("Matrix::transpose/no-panic", || m.transpose()) {
            chk(ctx, "Matrix::transpose", &t, &at);
        }
        let mb = Matrix::<R, C, N>::new(&flat(&b));
        if let Some(h) = ctx.attempt("Matrix::hadamard_product/no-panic", || m.hadamard_product(&mb)) {
            match h {
                Ok(h) => chk(ctx, "Matrix::hadamard_product", &h, &ab),
                Err(_) => ctx.ok("Matrix::hadamard_product succeeds", false),
            }
        }
        if let Some(s) = ctx.attempt("Matrix * scalar/no-panic", || m.clone() * k) {
            chk(ctx, "Matrix * scalar", &s, &scaled(&a, k));
        }
        for i in 0..R {
            if let Some(r) = ctx.attempt(&format!("Matrix::row_vector({i})/no-panic"), || m.row_vector(i)) {
                chk(ctx, &format!("Matrix::row_vector({i})"), &r, &[a[i].clone()]);
            }
        }
        chk(ctx, "Matrix operand unchanged", &m, &a);
    }
    if let Some(m) =
        ctx.attempt("Matrix::new_from_known/no-panic", || Matrix::<R, C, N>::new_from_known(arr::<N>(&flat(&a))))
    {
        chk(ctx, "Matrix::new_from_known", &m, &a);
    }
    // round-constant matrices
    if let Some(m) = ctx.attempt("ArcMatrix::new/no-panic", || ArcMatrix::<R, C, N>::new(&flat(&a))) {
        chk_access(ctx, "ArcMatrix::new", &m, &a);
        chk_set(ctx, "ArcMatrix", &m, &a);
        if let Some(t) = ctx.attempt("ArcMatrix::transpose/no-panic", || m.transpose()) {
            chk(ctx, "ArcMatrix::transpose", &t, &at);
        }
        let mb = ArcMatrix::<R, C, N>::new(&flat(&b));
        if let Some(Ok(h)) = ctx.attempt("ArcMatrix::hadamard_product/no-panic", || m.hadamard_product(&mb)) {
            chk(ctx, "ArcMatrix::hadamard_product", &h, &ab);
        }
        if let Some(e) = ctx.attempt("ArcMatrix::inner_elements/no-panic", || m.inner_elements()) {
            for (i, (x, y)) in e.iter().zip(flat(&a)).enumerate() {
                ctx.eq(&format!("ArcMatrix::inner_elements[{i}]"), *x, y);
            }
        }
    }
    if let Some(m) = ctx.attempt("ArcMatrix::new_from_known/no-panic", || {
        ArcMatrix::<R, C, N>::new_from_known(arr::<N>(&flat(&a)))
    }) {
        chk(ctx, "ArcMatrix::new_from_known", &m, &a);
    }
    if let Some(m) = ctx.attempt("OptimizedArcMatrix::new/no-panic", || OptimizedArcMatrix::<R, C, N>::new(&flat(&a))) {
        chk_access(ctx, "OptimizedArcMatrix::new", &m, &a);
        chk_set(ctx, "OptimizedArcMatrix", &m, &a);
        if let Some(t) = ctx.attempt("OptimizedArcMatrix::transpose/no-panic", || m.transpose()) {
            chk(ctx, "OptimizedArcMatrix::transpose", &t, &at);
        }
        let mb = OptimizedArcMatrix::<R, C, N>::new(&flat(&b));
        if let Some(Ok(h)) = ctx.attempt("OptimizedArcMatrix::hadamard_product/no-panic", || m.hadamard_product(&mb)) {
            chk(ctx, "OptimizedArcMatrix::hadamard_product", &h, &ab);
        }
    }
    if let Some(m) = ctx.attempt("OptimizedArcMatrix::new_from_known/no-panic", || {
        OptimizedArcMatrix::<R, C, N>::new_from_known(arr::<N>(&flat(&a)))
    }) {
        chk(ctx, "OptimizedArcMatrix::new_from_known", &m, &a);
    }
}

fn square<const D: usize, const N: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", D, D);
    let b = vec2(ctx, "b", D, D);
    let k = ctx.var("k");
    let at = spec::transpose(&a);
    let ab = map2(&a, &b, |x, y| x * y);
    if let Some(m) = ctx.attempt("SquareMatrix::new/no-panic", || SquareMatrix::<D, N>::new(&flat(&a))) {
        chk_access(ctx, "SquareMatrix::new", &m, &a);
        chk_set(ctx, "SquareMatrix", &m, &a);
        if let Some(t) = ctx.attempt("SquareMatrix::transpose/no-panic", || m.transpose()) {
            chk(ctx, "SquareMatrix::transpose", &t, &at);
        }
        let mb = SquareMatrix::<D, N>::new(&flat(&b));
        if let Some(Ok(h)) = ctx.attempt("SquareMatrix::hadamard_product/no-panic", || m.hadamard_product(&mb)) {
            chk(ctx, "SquareMatrix::hadamard_product", &h, &ab);
        }
        if let Some(s) = ctx.attempt("SquareMatrix * scalar/no-panic", || m.clone() * k) {
            chk(ctx, "SquareMatrix * scalar", &s, &scaled(&a, k));
        }
        for i in 0..D {
            if let Some(r) = ctx.attempt(&format!("SquareMatrix::row_vector({i})/no-panic"), || m.row_vector(i)) {
                chk(ctx, &format!("SquareMatrix::row_vector({i})"), &r, &[a[i].clone()]);
            }
        }
        if let Some(p) = ctx.attempt("square_mat_mul/no-panic", || square_mat_mul::<D, N, D, N, N>(&m, &mb)) {
            chk(ctx, "square_mat_mul", &p, &spec::mat_mul(&a, &b));
        }
        chk(ctx, "SquareMatrix operand unchanged", &m, &a);
    }
    if let Some(m) = ctx.attempt("SquareMatrix::new_from_known/no-panic", || {
        SquareMatrix::<D, N>::new_from_known(arr::<N>(&flat(&a)))
    }) {
        chk(ctx, "SquareMatrix::new_from_known", &m, &a);
    }
    if let Some(m) = ctx.attempt("SquareMatrix::identity/no-panic", || SquareMatrix::<D, N>::identity()) {
        chk(ctx, "SquareMatrix::identity", &m, &ident(D));
    }
}

fn mds_type<const T: usize, const TM1: usize, const T2: usize, const TM12: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", T, T);
    let b = vec2(ctx, "b", T, T);
    for how in ["new", "from_elements", "new_from_known"] {
        let m = ctx.attempt(&format!("MdsMatrix::{how}/no-panic"), || match how {
            "new" => MdsMatrix::<T, TM1, T2, TM12>::new(&flat(&a)),
            "from_elements" => MdsMatrix::<T, TM1, T2, TM12>::from_elements(&flat(&a)),
            _ => MdsMatrix::<T, TM1, T2, TM12>::new_from_known(arr::<T2>(&flat(&a))),
        });
        let Some(m) = m else { continue };
        chk_access(ctx, &format!("MdsMatrix::{how}"), &m, &a);
        if how == "new" {
            chk_set(ctx, "MdsMatrix", &m, &a);
            if let Some(t) = ctx.attempt("MdsMatrix::transpose/no-panic", || m.transpose()) {
                chk(ctx, "MdsMatrix::transpose", &t, &spec::transpose(&a));
            }
            let mb = MdsMatrix::<T, TM1, T2, TM12>::new(&flat(&b));
            if let Some(Ok(h)) = ctx.attempt("MdsMatrix::hadamard_product/no-panic", || m.hadamard_product(&mb)) {
                chk(ctx, "MdsMatrix::hadamard_product", &h, &map2(&a, &b, |x, y| x * y));
            }
        }
    }
}

fn product<const A: usize, const B: usize, const C: usize, const AB: usize, const BC: usize, const AC: usize>(
    ctx: &mut Ctx,
) {
    let a = vec2(ctx, "a", A, B);
    let b = vec2(ctx, "b", B, C);
    let (ma, mb) = (Matrix::<A, B, AB>::new(&flat(&a)), Matrix::<B, C, BC>::new(&flat(&b)));
    if let Some(p) = ctx.attempt("mat_mul/no-panic", || mat_mul::<A, B, AB, B, C, BC, AC>(&ma, &mb)) {
        chk(ctx, "mat_mul", &p, &spec::mat_mul(&a, &b));
    }
}

macro_rules! rects {
    ($v:ident, $(($r:expr, $c:expr)),* $(,)?) => { $(
        $v.push(job(format!("{}x{} matrices", $r, $c), $r * $c, |ctx: &mut Ctx| rect::<$r, $c, { $r * $c }>(ctx)));
    )* };
}
macro_rules! squares {
    ($v:ident, $($n:expr),*) => { $(
        $v.push(job(format!("{}x{} square matrices", $n, $n), $n * $n * 2, |ctx: &mut Ctx| square::<$n, { $n * $n }>(ctx)));
    )* };
}
macro_rules! products {
    ($v:ident, $(($a:expr, $b:expr, $c:expr)),* $(,)?) => { $(
        $v.push(job(format!("product {}x{} by {}x{}", $a, $b, $b, $c), $a * $c, |ctx: &mut Ctx|
            product::<$a, $b, $c, { $a * $b }, { $b * $c }, { $a * $c }>(ctx)));
    )* };
}
macro_rules! mdses {
    ($v:ident, $f:ident, $name:expr, $(($t:expr, $tm1:expr)),*) => { $(
        $v.push(job(format!("{} width {}", $name, $t), $t * $t * $t, |ctx: &mut Ctx| $f::<$t, $tm1, { $t * $t }, { $tm1 * $tm1 }>(ctx)));
    )* };
}

pub fn c08(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    rects!(
        v, (1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1),
        (4, 2), (4, 3), (4, 4), (1, 8), (8, 1), (5, 3), (3, 7), (5, 5), (6, 6), (7, 7), (8, 8), (7, 2), (2, 9),
        (10, 2), (1, 16), (17, 1), (6, 5), (5, 8), (39, 2), (39, 3)
    );
    squares!(v, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    products!(
        v, (1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 2), (1, 3, 1),
        (3, 1, 3), (2, 3, 2), (3, 2, 3), (2, 3, 4), (4, 3, 2), (3, 3, 3), (4, 4, 4), (1, 7, 1), (7, 1, 7), (1, 8, 8),
        (8, 8, 1), (5, 6, 7), (7, 5, 6), (8, 8, 8), (3, 9, 2), (9, 2, 3)
    );
    mdses!(v, mds_type, "MDS type", (1, 0), (2, 1), (3, 2), (4, 3), (5, 4), (6, 5), (7, 6), (8, 7), (9, 8));
    rects!(v, (12, 7), (7, 12), (16, 16), (39, 8), (20, 3), (3, 20), (11, 11), (13, 1), (1, 39), (17, 17), (1, 65), (65, 1), (33, 2), (9, 33));
    squares!(v, 11, 12, 13, 16, 17);
    products!(v, (10, 10, 10), (12, 5, 9), (1, 20, 1), (16, 1, 16), (11, 3, 2), (16, 16, 16), (17, 17, 17), (1, 65, 1), (2, 33, 3), (33, 2, 17));
    mdses!(v, mds_type, "MDS type", (10, 9), (12, 11), (16, 15), (17, 16));
    if thorough {
        rects!(v, (32, 32), (64, 3), (3, 64), (1, 257), (257, 1));
        squares!(v, 20, 24, 32, 33);
        products!(v, (32, 32, 32), (1, 257, 1), (33, 9, 33), (3, 129, 2));
        mdses!(v, mds_type, "MDS type", (20, 19), (33, 32));
    }
    v.push(job("new_2x2", 1, |ctx: &mut Ctx| {
        let x = vars(ctx, "x", 4);
        if let Some(m) = ctx.attempt("new_2x2/no-panic", || SquareMatrix::<2, 4>::new_2x2(x[0], x[1], x[2], x[3])) {
            chk(ctx, "new_2x2", &m, &[vec![x[0], x[1]], vec![x[2], x[3]]]);
        }
    }));
    v
}

// ------------------------------------------------------------------ C09
macro_rules! badshape {
    ($ctx:expr, $(($r:expr, $c:expr, $n:expr)),* $(,)?) => { $( {
        let (r, c, n): (usize, usize, usize) = ($r, $c, $n);
        let good = r * c == n;
        for len in [0usize, 1, 2, 3, 4, 5, 6, 8, 9, 12, n, n + 1, r * c] {
            let xs = vars($ctx, "e", len);
            let accept = good && len == n;
            let l = |k: &str| format!("{k}::<{r},{c},{n}>::new(slice of {len})");
            $ctx.panics(&l("Matrix"), !accept, || Matrix::<$r, $c, $n>::new(&xs));
            $ctx.panics(&l("ArcMatrix"), !accept, || ArcMatrix::<$r, $c, $n>::new(&xs));
            $ctx.panics(&l("OptimizedArcMatrix"), !accept, || OptimizedArcMatrix::<$r, $c, $n>::new(&xs));
        }
        let xs = vars($ctx, "e", n);
        let l = |k: &str| format!("{k}::<{r},{c},{n}>::new_from_known");
        $ctx.panics(&l("Matrix"), !good, || Matrix::<$r, $c, $n>::new_from_known(arr::<$n>(&xs)));
        $ctx.panics(&l("ArcMatrix"), !good, || ArcMatrix::<$r, $c, $n>::new_from_known(arr::<$n>(&xs)));
        $ctx.panics(&l("OptimizedArcMatrix"), !good, || OptimizedArcMatrix::<$r, $c, $n>::new_from_known(arr::<$n>(&xs)));
    } )* };
}
macro_rules! badsquare {
    ($ctx:expr, $(($r:expr, $n:expr)),* $(,)?) => { $( {
        let (r, n): (usize, usize) = ($r, $n);
        let good = r * r == n;
        for len in [0usize, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, n, n + 1, r * r] {
            let xs = vars($ctx, "e", len);
            $ctx.panics(&format!("SquareMatrix::<{r},{n}>::new(slice of {len})"), !(good && len == n), || SquareMatrix::<$r, $n>::new(&xs));
        }
        let xs = vars($ctx, "e", n);
        $ctx.panics(&format!("SquareMatrix::<{r},{n}>::new_from_known"), !good, || SquareMatrix::<$r, $n>::new_from_known(arr::<$n>(&xs)));
    } )* };
}
macro_rules! badmds {
    ($ctx:expr, $(($t:expr, $tm1:expr, $n:expr, $nm:expr)),* $(,)?) => { $( {
        let (t, tm1, n, nm): (usize, usize, usize, usize) = ($t, $tm1, $n, $nm);
        let good = t == tm1 + 1 && t * t == n && tm1 * tm1 == nm;
        for len in [0usize, 1, 4, 9, 16, n, n + 1, t * t] {
            let xs = vars($ctx, "e", len);
            let l = |k: &str| format!("MdsMatrix::<{t},{tm1},{n},{nm}>::{k}(slice of {len})");
            $ctx.panics(&l("new"), !(good && len == n), || MdsMatrix::<$t, $tm1, $n, $nm>::new(&xs));
            $ctx.panics(&l("from_elements"), !(good && len == n), || MdsMatrix::<$t, $tm1, $n, $nm>::from_elements(&xs));
        }
        let xs = vars($ctx, "e", n);
        $ctx.panics(&format!("MdsMatrix::<{t},{tm1},{n},{nm}>::new_from_known"), !good, || MdsMatrix::<$t, $tm1, $n, $nm>::new_from_known(arr::<$n>(&xs)));
    } )* };
}
macro_rules! badprod {
    ($ctx:expr, $(($a:expr, $b:expr, $c:expr, $d:expr, $n:expr)),* $(,)?) => { $( {
        let (a, b, c, d, n): (usize, usize, usize, usize, usize) = ($a, $b, $c, $d, $n);
        let x = Matrix::<$a, $b, { $a * $b }>::new(&vars($ctx, "x", a * b));
        let y = Matrix::<$c, $d, { $c * $d }>::new(&vars($ctx, "y", c * d));
        let good = b == c && n == a * d;
        $ctx.panics(&format!("mat_mul {a}x{b} by {c}x{d} into {n} elements"), !good,
            || mat_mul::<$a, $b, { $a * $b }, $c, $d, { $c * $d }, $n>(&x, &y));
    } )* };
}
macro_rules! badsqprod {
    ($ctx:expr, $(($a:expr, $b:expr, $n:expr)),* $(,)?) => { $( {
        let (a, b, n): (usize, usize, usize) = ($a, $b, $n);
        let x = SquareMatrix::<$a, { $a * $a }>::new(&vars($ctx, "x", a * a));
        let y = SquareMatrix::<$b, { $b * $b }>::new(&vars($ctx, "y", b * b));
        let good = a == b && n == a * a;
        $ctx.panics(&format!("square_mat_mul {a}x{a} by {b}x{b} into {n} elements"), !good,
            || square_mat_mul::<$a, { $a * $a }, $b, { $b * $b }, $n>(&x, &y));
    } )* };
}
pub fn c09() -> Vec<Job> {
    vec![
        job("constructors", 4, |ctx: &mut Ctx| {
            badshape!(
                ctx, (1, 1, 1), (1, 1, 0), (1, 1, 2), (1, 2, 1), (1, 2, 2), (1, 2, 3), (2, 1, 2), (2, 1, 1), (2, 1, 3),
                (2, 2, 1), (2, 2, 2), (2, 2, 3), (2, 2, 4), (2, 2, 5), (2, 2, 6), (2, 3, 5), (2, 3, 6), (2, 3, 7),
                (2, 3, 4), (2, 3, 9), (3, 2, 6), (3, 2, 4), (3, 2, 9), (3, 2, 5), (3, 3, 6), (3, 3, 8), (3, 3, 9),
                (3, 3, 10), (3, 3, 12), (1, 4, 4), (4, 1, 4), (4, 1, 16), (1, 4, 16), (3, 4, 12), (3, 4, 7), (3, 4, 9),
                (3, 4, 16), (4, 3, 12), (4, 3, 11), (4, 4, 8), (4, 4, 15), (4, 4, 16), (4, 4, 17), (0, 1, 1), (1, 0, 1),
                (5, 1, 5), (5, 1, 6), (8, 8, 64), (8, 8, 63), (8, 8, 16), (39, 2, 78), (39, 2, 41)
            );
        }),
        job("square constructors", 2, |ctx: &mut Ctx| {
            badsquare!(
                ctx, (1, 1), (1, 2), (2, 4), (2, 3), (2, 5), (2, 2), (3, 9), (3, 6), (3, 8), (3, 10), (3, 3), (4, 16),
                (4, 8), (4, 15), (4, 17), (5, 25), (5, 24), (8, 64), (8, 63), (0, 1)
            );
        }),
        job("MDS constructors", 3, |ctx: &mut Ctx| {
            badmds!(
                ctx, (2, 1, 4, 1), (2, 1, 4, 2), (2, 1, 4, 0), (2, 2, 4, 4), (2, 0, 4, 0), (2, 3, 4, 9), (2, 1, 3, 1),
                (2, 1, 5, 1), (3, 2, 9, 4), (3, 2, 9, 9), (3, 2, 9, 3), (3, 2, 9, 5), (3, 3, 9, 9), (3, 1, 9, 1),
                (3, 4, 9, 16), (3, 2, 8, 4), (3, 2, 10, 4), (3, 2, 4, 4), (4, 3, 16, 9), (4, 3, 16, 8), (4, 3, 16, 16),
                (4, 2, 16, 4), (4, 4, 16, 16), (4, 5, 16, 25), (4, 3, 12, 9), (5, 4, 25, 16), (5, 4, 25, 20),
                (5, 3, 25, 9), (8, 7, 64, 49), (8, 7, 64, 48), (8, 6, 64, 36)
            );
        }),
        job("products", 3, |ctx: &mut Ctx| {
            badprod!(
                ctx, (1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (1, 1, 1, 1, 0), (1, 2, 1, 1, 1), (1, 1, 2, 1, 1), (2, 2, 2, 2, 4),
                (2, 2, 2, 2, 3), (2, 2, 2, 2, 5), (2, 2, 3, 2, 4), (2, 3, 2, 2, 4), (2, 3, 3, 2, 4), (2, 3, 3, 2, 6),
                (2, 3, 3, 2, 9), (2, 3, 2, 3, 4), (2, 3, 2, 3, 6), (3, 2, 3, 2, 6), (3, 2, 3, 2, 9), (3, 2, 2, 3, 9),
                (3, 2, 2, 3, 6), (3, 2, 2, 3, 8), (1, 4, 4, 1, 1), (1, 4, 4, 1, 4), (4, 1, 1, 4, 16), (4, 1, 1, 4, 4),
                (4, 1, 4, 1, 4), (1, 4, 1, 4, 4), (2, 4, 2, 2, 4), (2, 4, 3, 2, 4), (2, 4, 4, 2, 4), (3, 3, 4, 4, 12),
                (3, 3, 4, 4, 9), (4, 4, 3, 3, 12), (4, 4, 3, 3, 16), (2, 6, 3, 4, 8), (2, 2, 4, 2, 4), (2, 4, 2, 4, 8),
                (8, 8, 8, 8, 64), (8, 8, 7, 8, 64), (8, 7, 8, 8, 64), (0, 3, 3, 2, 0), (0, 3, 4, 2, 0), (2, 3, 3, 0, 0),
                (2, 3, 4, 0, 0), (0, 1, 2, 0, 0), (0, 2, 2, 0, 0), (0, 3, 3, 2, 1), (2, 3, 3, 0, 2), (9, 17, 17, 9, 81),
                (9, 17, 16, 9, 81), (9, 17, 17, 9, 80)
            );
        }),
        job("square products", 2, |ctx: &mut Ctx| {
            badsqprod!(
                ctx, (1, 1, 1), (1, 1, 2), (1, 2, 1), (1, 2, 2), (2, 1, 4), (2, 1, 2), (2, 2, 4), (2, 2, 3), (2, 2, 5),
                (2, 3, 4), (2, 3, 6), (2, 3, 9), (3, 2, 9), (3, 2, 6), (3, 2, 4), (3, 3, 9), (3, 3, 8), (3, 3, 10),
                (2, 4, 4), (4, 2, 16), (2, 4, 8), (4, 2, 8), (4, 4, 16), (4, 4, 15), (7, 8, 49), (8, 7, 64), (8, 8, 64)
            );
        }),
    ]
}

// ------------------------------------------------------------------ C10, C11
fn dets<const D: usize, const N: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", D, D);
    let m = SquareMatrix::<D, N>::new(&flat(&a));
    if let Some(d) = ctx.attempt("determinant/no-panic", || m.determinant()) {
        ctx.eq("determinant/ensures Leibniz sum", d, spec::det(&a));
    }
    if let Some(c) = ctx.attempt("cofactors/no-panic", || m.cofactors()) {
        let want: Vec<Vec<Fq>> = (0..D)
            .map(|i| {
                (0..D)
                    .map(|j| if (i + j) % 2 == 0 { spec::one() } else { spec::zero() - spec::one() })
                    .collect()
            })
            .collect();
        chk(ctx, "cofactors", &c, &want);
    }
    if let Some(mi) = ctx.attempt("minors/no-panic", || m.minors()) {
        for i in 0..D {
            for j in 0..D {
                ctx.eq(
                    &format!("minors/ensures minor ({i},{j})"),
                    mi.get_element(i, j),
                    spec::det(&spec::without(&a, i, j)),
                );
            }
        }
    }
}
fn inv<const D: usize, const N: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", D, D);
    let m = SquareMatrix::<D, N>::new(&flat(&a));
    let Some(r) = ctx.attempt("inverse/no-panic", || m.inverse()) else { return };
    match r {
        Err(_) => ctx.eq("inverse/ensures Err only if det == 0", spec::det(&a), spec::zero()),
        Ok(b) => is_inverse(ctx, "inverse", &a, &rows_of(&b)),
    }
}
/// `b` is the two-sided inverse of `a`.  From size 5 on stated through the adjugate:
/// `b == adj(a) / det(a)` and `det(a) != 0`, equivalent by `Matrix.mul_adjugate`.
fn is_inverse(ctx: &mut Ctx, what: &str, a: &[Vec<Fq>], b: &[Vec<Fq>]) {
    let n = a.len();
    if n <= 4 {
        let id = ident(n);
        let l = spec::mat_mul(b, a);
        let r = spec::mat_mul(a, b);
        for i in 0..n {
            for j in 0..n {
                ctx.eq(&format!("{what}/ensures (M * inv)({i},{j})"), r[i][j], id[i][j]);
                ctx.eq(&format!("{what}/ensures (inv * M)({i},{j})"), l[i][j], id[i][j]);
            }
        }
        return;
    }
    let Some(di) = spec::det(a).inverse() else {
        ctx.ok(&format!("{what}/ensures Ok only if det != 0"), false);
        return;
    };
    for i in 0..n {
        for j in 0..n {
            let m = spec::det(&spec::without(a, j, i));
            let adj = if (i + j) % 2 == 0 { m } else { spec::zero() - m };
            ctx.eq(&format!("{what}/ensures inv({i},{j}) == adj({i},{j}) / det"), b[i][j], adj * di);
        }
    }
}
/// `a`, and matrices that share its determinant, trace and set of entries: every call has to
/// answer for its own operand, whatever was computed before it in the same process.
fn lookalikes(a: &[Vec<Fq>]) -> Vec<(&'static str, Vec<Vec<Fq>>)> {
    let n = a.len();
    let conj = (0..n).map(|i| (0..n).map(|j| a[(i + 1) % n][(j + 1) % n]).collect()).collect();
    vec![("first", a.to_vec()), ("its transpose", spec::transpose(a)), ("its conjugate by a cycle", conj), ("again", a.to_vec())]
}
fn dets_history<const D: usize, const N: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", D, D);
    for (tag, w) in lookalikes(&a) {
        let m = SquareMatrix::<D, N>::new(&flat(&w));
        if let Some(d) = ctx.attempt(&format!("{tag}: determinant/no-panic"), || m.determinant()) {
            ctx.eq(&format!("{tag}: determinant/ensures Leibniz sum"), d, spec::det(&w));
        }
        if let Some(mi) = ctx.attempt(&format!("{tag}: minors/no-panic"), || m.minors()) {
            let want: Vec<Vec<Fq>> =
                (0..D).map(|i| (0..D).map(|j| spec::det(&spec::without(&w, i, j))).collect()).collect();
            chk(ctx, &format!("{tag}: minors"), &mi, &want);
        }
    }
}
fn inv_history<const D: usize, const N: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", D, D);
    for (tag, w) in lookalikes(&a) {
        let m = SquareMatrix::<D, N>::new(&flat(&w));
        let Some(r) = ctx.attempt(&format!("{tag}: inverse/no-panic"), || m.inverse()) else { return };
        match r {
            Err(_) => ctx.eq(&format!("{tag}: inverse/ensures Err only if det == 0"), spec::det(&w), spec::zero()),
            Ok(b) => is_inverse(ctx, &format!("{tag}: inverse"), &w, &rows_of(&b)),
        }
    }
}
macro_rules! dims {
    ($t:literal, $f:ident, $($n:expr),*) => { vec![ $( job(format!("{} {}x{}", $t, $n, $n), 1 << $n, |ctx: &mut Ctx| $f::<$n, { $n * $n }>(ctx)) ),* ] };
    ($f:ident, $($n:expr),*) => { vec![ $( job(format!("{}x{}", $n, $n), 1 << $n, |ctx: &mut Ctx| $f::<$n, { $n * $n }>(ctx)) ),* ] };
}
pub fn c10() -> Vec<Job> {
    let mut v = dims!(dets, 1, 2, 3, 4, 5, 6, 7, 8);
    v.extend(dims!("history", dets_history, 2, 3));
    v
}
pub fn c11() -> Vec<Job> {
    let mut v = dims!(inv, 1, 2, 3, 4, 5, 6, 7, 8);
    v.extend(dims!("history", inv_history, 2, 3));
    // matrices that are singular for every value of the variables, in several ways
    v.push(job("singular families", 3, |ctx: &mut Ctx| {
        fn fam<const D: usize, const N: usize>(ctx: &mut Ctx) {
            let base = vec2(ctx, "a", D, D);
            let k = ctx.var("k");
            let zero = spec::zero();
            let mut cases: Vec<(String, Vec<Vec<Fq>>)> = vec![("zero matrix".into(), vec![vec![zero; D]; D])];
            for i in 0..D {
                let mut m = base.clone();
                m[i] = vec![zero; D];
                cases.push((format!("zero row {i}"), m));
                let mut m = base.clone();
                for r in m.iter_mut() {
                    r[i] = zero;
                }
                cases.push((format!("zero column {i}"), m));
                if i > 0 {
                    let mut m = base.clone();
                    m[i] = base[0].iter().map(|x| *x * k).collect();
                    cases.push((format!("row {i} = k * row 0"), m));
                }
            }
            for (name, a) in cases {
                let m = SquareMatrix::<D, N>::new(&flat(&a));
                if let Some(r) = ctx.attempt(&format!("{D}x{D} {name}/inverse no-panic"), || m.inverse()) {
                    ctx.ok(&format!("{D}x{D} {name}/ensures Err"), r.is_err());
                }
            }
        }
        fam::<1, 1>(ctx);
        fam::<2, 4>(ctx);
        fam::<3, 9>(ctx);
        fam::<4, 16>(ctx);
        fam::<5, 25>(ctx);
    }));
    v
}

// ------------------------------------------------------------------ C12
fn views<const T: usize, const TM1: usize, const T2: usize, const TM12: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", T, T);
    let m = MdsMatrix::<T, TM1, T2, TM12>::new(&flat(&a));
    let part = |ctx: &mut Ctx, tag: &str, m: &MdsMatrix<T, TM1, T2, TM12>, a: &Vec<Vec<Fq>>| {
        if let Some(v) = ctx.attempt(&format!("{tag}v/no-panic"), || m.v()) {
            chk(ctx, &format!("{tag}v"), &v, &[a[0][1..].to_vec()]);
        }
        if let Some(w) = ctx.attempt(&format!("{tag}w/no-panic"), || m.w()) {
            let want: Vec<Vec<Fq>> = a[1..].iter().map(|r| vec![r[0]]).collect();
            chk(ctx, &format!("{tag}w"), &w, &want);
        }
        if let Some(h) = ctx.attempt(&format!("{tag}hat/no-panic"), || m.hat()) {
            let want: Vec<Vec<Fq>> = a[1..].iter().map(|r| r[1..].to_vec()).collect();
            chk(ctx, &format!("{tag}hat"), &h, &want);
        }
    };
    part(ctx, "", &m, &a);
    if let Some(t) = ctx.attempt("transpose/no-panic", || m.transpose()) {
        let at = spec::transpose(&a);
        chk(ctx, "transpose", &t, &at);
        part(ctx, "transposed ", &t, &at);
    }
    chk(ctx, "operand unchanged", &m, &a);
}
fn mds_inverse<const T: usize, const TM1: usize, const T2: usize, const TM12: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", T, T);
    let m = MdsMatrix::<T, TM1, T2, TM12>::new(&flat(&a));
    // precondition: a well-formed MDS matrix is invertible
    if spec::det(&a) == spec::zero() {
        ctx.excluded("singular matrix (precondition)");
        return;
    }
    if let Some(got) = ctx.attempt("MdsMatrix::inverse/no-panic", || m.inverse()) {
        is_inverse(ctx, "inverse", &a, &rows_of(&got));
    }
}
fn mds_history<const T: usize, const TM1: usize, const T2: usize, const TM12: usize>(ctx: &mut Ctx) {
    let a = vec2(ctx, "a", T, T);
    if spec::det(&a) == spec::zero() {
        ctx.excluded("singular matrix (precondition)");
        return;
    }
    for (tag, w) in lookalikes(&a) {
        let m = MdsMatrix::<T, TM1, T2, TM12>::new(&flat(&w));
        if let Some(t) = ctx.attempt(&format!("{tag}: transpose/no-panic"), || m.transpose()) {
            chk(ctx, &format!("{tag}: transpose"), &t, &spec::transpose(&w));
        }
        if let Some(h) = ctx.attempt(&format!("{tag}: hat/no-panic"), || m.hat()) {
            let want: Vec<Vec<Fq>> = w[1..].iter().map(|r| r[1..].to_vec()).collect();
            chk(ctx, &format!("{tag}: hat"), &h, &want);
        }
        if let Some(got) = ctx.attempt(&format!("{tag}: inverse/no-panic"), || m.inverse()) {
            is_inverse(ctx, &format!("{tag}: inverse"), &w, &rows_of(&got));
        }
    }
}
pub fn c12() -> Vec<Job> {
    let mut v = vec![];
    mdses!(v, views, "views", (1, 0), (2, 1), (3, 2), (4, 3), (5, 4), (6, 5), (7, 6), (8, 7), (9, 8), (10, 9), (12, 11), (16, 15));
    mdses!(v, mds_inverse, "inverse", (2, 1), (3, 2), (4, 3), (5, 4), (6, 5), (7, 6), (8, 7));
    mdses!(v, mds_history, "history", (2, 1), (3, 2));
    v
}
