// ---------------------------------------------------------------- specification functions
pub open spec fn fsum(s: Seq<Fq>) -> Fq decreases s.len() {
    if s.len() == 0 { fzero() } else { fadd(fsum(s.drop_last()), s.last()) }
}
/// sum of the products of corresponding items (the shorter length decides)
pub open spec fn dot(a: Seq<Fq>, b: Seq<Fq>) -> Fq {
    fsum(Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |k: int| fmul(a[k], b[k])))
}
/// position of row i, column j in a row-major array with n columns
#[verifier::opaque]
pub open spec fn ix(i: int, j: int, n: int) -> int { i * n + j }

pub open spec fn add_words(s: Seq<Fq>, k: Seq<Fq>) -> Seq<Fq> { Seq::new(s.len(), |i: int| fadd(s[i], k[i])) }
/// the matrix with the given rows times the column vector s
pub open spec fn mat_vec(rows: Seq<Seq<Fq>>, s: Seq<Fq>) -> Seq<Fq> { Seq::new(rows.len(), |i: int| dot(rows[i], s)) }
