## ------------------------------------------------------------------ determinant, minors, inverse
== raw determinant specification
B: pub open spec fn skip(a: int, i: int) -> int { if a < i { a } else { a + 1 } }
B: /// the matrix (sequence of rows) without row i and column j
B: pub open spec fn minor(m: Seq<Seq<Fq>>, i: int, j: int) -> Seq<Seq<Fq>> {
B:     Seq::new((m.len() - 1) as nat, |a: int| Seq::new((m.len() - 1) as nat, |b: int| m[skip(a, i)][skip(b, j)]))
B: }
B: /// determinant: expansion along the first column
B: pub open spec fn det(m: Seq<Seq<Fq>>) -> Fq decreases m.len(), m.len() + 1 {
B:     if m.len() == 0 { fone() } else if m.len() == 1 { m[0][0] } else { lap(m, m.len()) }
B: }
B: /// the first k terms of the expansion
B: pub open spec fn lap(m: Seq<Seq<Fq>>, k: nat) -> Fq decreases m.len(), k {
B:     if k == 0 || m.len() < 2 { fzero() } else {
B:         let t = fmul(m[k - 1][0], det(minor(m, k - 1, 0)));
B:         if k % 2 == 1 { fadd(lap(m, (k - 1) as nat), t) } else { fsub(lap(m, (k - 1) as nat), t) }
B:     }
B: }
B: pub open spec fn sign(n: int) -> Fq { fpow(fneg(fone()), n as nat) }
B: pub open spec fn cof(m: Seq<Seq<Fq>>, i: int, j: int) -> Fq { fmul(det(minor(m, i, j)), sign(i + j)) }
B: pub broadcast axiom fn fmul_one(a: Fq) ensures #[trigger] fmul(fone(), a) == a;
B: pub open spec fn colv(m: Seq<Seq<Fq>>, j: int) -> Seq<Fq> { Seq::new(m.len(), |k: int| m[k][j]) }
B: /// assumed: the adjugate over the determinant is the right inverse (lean/Adjugate.lean proves it for every
B: /// commutative ring; S decides it for the code's own results at sizes 1 to 8)
B: pub axiom fn adjugate(m: Seq<Seq<Fq>>, inv: Seq<Seq<Fq>>)
B:     requires m.len() >= 1, det(m) != fzero(), inv.len() == m.len(),
B:         forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i].len() == m.len(),
B:         forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() ==> #[trigger] inv[i][j] == fmul(cof(m, j, i), fdiv(fone(), det(m))),
B:     ensures forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len()
B:         ==> #[trigger] dot(m[i], colv(inv, j)) == (if i == j { fone() } else { fzero() });
B: impl PartialEq for Fq { #[verifier::external_body] fn eq(&self, o: &Fq) -> (r: bool) { self.x == o.x } }
B: impl vstd::std_specs::cmp::PartialEqSpecImpl for Fq { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fq) -> bool { *self == *o } }
B: impl<const N_ROWS: usize, const N_ELEMENTS: usize> PartialEq for SquareMatrix<N_ROWS, N_ELEMENTS> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
B: impl<const N_ROWS: usize, const N_ELEMENTS: usize> vstd::std_specs::cmp::PartialEqSpecImpl for SquareMatrix<N_ROWS, N_ELEMENTS> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0.elements@ == o.0.elements@ } }
B: /// the `*` operator is the method verified as SquareMatrix::mul
B: pub uninterp spec fn smul<const N_ROWS: usize, const N_ELEMENTS: usize>(m: SquareMatrix<N_ROWS, N_ELEMENTS>, x: Fq) -> SquareMatrix<N_ROWS, N_ELEMENTS>;
B: pub axiom fn smul_at<const N_ROWS: usize, const N_ELEMENTS: usize>(m: SquareMatrix<N_ROWS, N_ELEMENTS>, x: Fq)
B:     requires SquareMatrix::<N_ROWS, N_ELEMENTS>::wf(),
B:     ensures forall|i: int, j: int| SquareMatrix::<N_ROWS, N_ELEMENTS>::in_range(i, j) ==> #[trigger] smul(m, x).at(i, j) == fmul(m.at(i, j), x);
B: impl<const N_ROWS: usize, const N_ELEMENTS: usize> core::ops::Mul<Fq> for SquareMatrix<N_ROWS, N_ELEMENTS> { type Output = Self; #[verifier::external_body] fn mul(self, o: Fq) -> (r: Self) { unimplemented!() } }
B: impl<const N_ROWS: usize, const N_ELEMENTS: usize> MulSpecImpl<Fq> for SquareMatrix<N_ROWS, N_ELEMENTS> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fq) -> bool { true } open spec fn mul_spec(self, o: Fq) -> Self { smul(self, o) } }
B: impl Fq {
B:     #[verifier::external_body]
B:     pub fn inverse(&self) -> (r: Option<Fq>) ensures (r is None) == (*self == fzero()), r is Some ==> r->0 == fdiv(fone(), *self) { unimplemented!() }
B: }
B: pub trait VxOkOr<T>: Sized {
B:     spec fn vx_val(self) -> Option<T>;
B:     fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>)
B:         ensures (r is Ok) == (self.vx_val() is Some), r is Ok ==> r->Ok_0 == self.vx_val()->0;
B: }
B: impl<T> VxOkOr<T> for Option<T> {
B:     open spec fn vx_val(self) -> Option<T> { self }
B:     #[verifier::external_body]
B:     fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>) { self.ok_or(e) }
B: }
== raw rows
B: impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
B:     pub open spec fn rows(&self) -> Seq<Seq<Fq>> { Seq::new(N_ROWS as nat, |i: int| self.row(i)) }
B: }
B: /// a matrix filled with the entries that remain is the minor
B: pub proof fn lemma_minor<const D: usize, const E: usize, const N: usize, const M: usize>(m: SquareMatrix<D, N>, s: SquareMatrix<E, M>, i: int, j: int)
B:     requires SquareMatrix::<D, N>::wf(), SquareMatrix::<E, M>::wf(), D == E + 1, 0 <= i < D, 0 <= j < D,
B:         forall|q: int| 0 <= q < M ==> #[trigger] s.0.elements@[q] == m.at(skip(q / (E as int), i), skip(q % (E as int), j)),
B:     ensures s.rows() == minor(m.rows(), i, j),
B: {
B:     broadcast use ix_divmod;
B:     assert forall|a: int, b: int| 0 <= a < E && 0 <= b < E implies #[trigger] s.at(a, b) == m.at(skip(a, i), skip(b, j)) by {
B:         ix_lt(a, b, E as int, E as int);
B:     }
B:     assert forall|a: int| 0 <= a < E implies #[trigger] s.rows()[a] == minor(m.rows(), i, j)[a] by {
B:         assert forall|b: int| 0 <= b < E implies #[trigger] s.rows()[a][b] == minor(m.rows(), i, j)[a][b] by {
B:             assert(s.rows()[a][b] == s.at(a, b));
B:         }
B:         assert(s.rows()[a] =~= minor(m.rows(), i, j)[a]);
B:     }
B:     assert(s.rows() =~= minor(m.rows(), i, j));
B: }
== fn SquareMatrix::cofactors
requires Self::wf(),
    N_ROWS <= 8,
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(i, j) == sign(i + j),
== at SquareMatrix::cofactors.begin
ix_step(0, N_ROWS as int);
== loop SquareMatrix::cofactors#0 :: i in 0..dim
invariant
    Self::wf(), dim == N_ROWS, N_ROWS <= 8, index == ix(i as int, 0, N_ROWS as int), index <= N_ELEMENTS,
    forall|k: int| 0 <= k < index ==> #[trigger] elements@[k] == sign(k / (N_ROWS as int) + k % (N_ROWS as int)),
== at SquareMatrix::cofactors#0.end
ix_step(i as int, N_ROWS as int);
assert((i + 1) * N_ROWS <= N_ROWS * N_ROWS) by (nonlinear_arith) requires i < N_ROWS;
ix_step(i + 1, N_ROWS as int);
== loop SquareMatrix::cofactors#1 :: j in 0..dim
invariant
    Self::wf(), dim == N_ROWS, N_ROWS <= 8, i < dim, index == ix(i as int, j as int, N_ROWS as int),
    forall|k: int| 0 <= k < index ==> #[trigger] elements@[k] == sign(k / (N_ROWS as int) + k % (N_ROWS as int)),
== at SquareMatrix::cofactors#1.begin
broadcast use ix_divmod;
ix_lt(i as int, j as int, N_ROWS as int, N_ROWS as int);
== at SquareMatrix::cofactors#1.end
assert(index == ix(i as int, j + 1, N_ROWS as int)) by { reveal(ix); }
== at SquareMatrix::cofactors.end
broadcast use ix_divmod;
ix_step(N_ROWS as int, N_ROWS as int);
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(i, j) == sign(i + j) by {
    ix_lt(i, j, N_ROWS as int, N_ROWS as int);
}
== fn SquareMatrix::determinant
requires Self::wf(), 1 <= N_ROWS <= 8,
ensures r == det(self.rows()),
== fn determinant
requires SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 8,
ensures r == det(matrix.rows()),
== loop determinant#0 :: i in 0..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 8,
    levi_civita == (i % 2 == 0), det == lap(matrix.rows(), i as nat),
== at determinant#0.begin
ix_step(0, DIM_MINUS_1 as int);
broadcast use ix_divmod;
== loop determinant#1 :: k in 0..i
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 8, i < DIM,
    index == ix(k as int, 0, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), 0)),
== at determinant#1.end
ix_step(k as int, DIM_MINUS_1 as int);
== loop determinant#2 :: l in 1..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 8, k < i < DIM,
    index == ix(k as int, l - 1, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), 0)),
== at determinant#2.begin
broadcast use ix_divmod;
ix_lt(k as int, l - 1, DIM_MINUS_1 as int, DIM_MINUS_1 as int);
== at determinant#2.end
assert(index == ix(k as int, l as int, DIM_MINUS_1 as int)) by { reveal(ix); }
== loop determinant#3 :: k in i+1..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 8, i < DIM,
    index == ix(k - 1, 0, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), 0)),
== at determinant#3.end
ix_step(k - 1, DIM_MINUS_1 as int);
== loop determinant#4 :: l in 1..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 8, i < k < DIM,
    index == ix(k - 1, l - 1, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), 0)),
== at determinant#4.begin
broadcast use ix_divmod;
ix_lt(k - 1, l - 1, DIM_MINUS_1 as int, DIM_MINUS_1 as int);
== at determinant#4.end
assert(index == ix(k - 1, l as int, DIM_MINUS_1 as int)) by { reveal(ix); }
== at determinant#3.after
ix_step(DIM - 2, DIM_MINUS_1 as int);
ix_step(DIM - 1, DIM_MINUS_1 as int);
== at determinant#0.end
broadcast use group_field;
lemma_minor(*matrix, minor, i as int, 0);
== fn minor_matrix
requires SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9,
ensures forall|i: int, j: int| 0 <= i < DIM && 0 <= j < DIM ==> #[trigger] r.at(i, j) == det(minor(matrix.rows(), i, j)),
== at minor_matrix.begin
ix_step(0, DIM as int);
== loop minor_matrix#0 :: i in 0..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, outer_index == ix(i as int, 0, DIM as int), outer_index <= N_ELEMENTS,
    forall|q: int| 0 <= q < outer_index ==> #[trigger] minor_matrix_elements@[q] == det(minor(matrix.rows(), q / (DIM as int), q % (DIM as int))),
== at minor_matrix#0.end
ix_step(i as int, DIM as int);
assert((i + 1) * DIM <= DIM * DIM) by (nonlinear_arith) requires i < DIM;
ix_step(i + 1, DIM as int);
== loop minor_matrix#1 :: j in 0..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, outer_index == ix(i as int, j as int, DIM as int),
    forall|q: int| 0 <= q < outer_index ==> #[trigger] minor_matrix_elements@[q] == det(minor(matrix.rows(), q / (DIM as int), q % (DIM as int))),
== at minor_matrix#1.begin
broadcast use ix_divmod;
ix_lt(i as int, j as int, DIM as int, DIM as int);
ix_step(0, DIM_MINUS_1 as int);
== at minor_matrix#1.end
assert(outer_index == ix(i as int, j + 1, DIM as int)) by { reveal(ix); }
lemma_minor(*matrix, minor, i as int, j as int);
== loop minor_matrix#2 :: k in 0..i
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, j < DIM, index == ix(k as int, 0, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), j as int)),
== at minor_matrix#2.end
ix_step(k as int, DIM_MINUS_1 as int);
== loop minor_matrix#3 :: l in 0..j
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, j < DIM, k < i, index == ix(k as int, l as int, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), j as int)),
== at minor_matrix#3.begin
broadcast use ix_divmod;
ix_lt(k as int, l as int, DIM_MINUS_1 as int, DIM_MINUS_1 as int);
== at minor_matrix#3.end
assert(index == ix(k as int, l + 1, DIM_MINUS_1 as int)) by { reveal(ix); }
== loop minor_matrix#4 :: l in (j+1)..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, j < DIM, k < i, index == ix(k as int, l - 1, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), j as int)),
== at minor_matrix#4.begin
broadcast use ix_divmod;
ix_lt(k as int, l - 1, DIM_MINUS_1 as int, DIM_MINUS_1 as int);
== at minor_matrix#4.end
assert(index == ix(k as int, l as int, DIM_MINUS_1 as int)) by { reveal(ix); }
== loop minor_matrix#5 :: k in i+1..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, j < DIM, index == ix(k - 1, 0, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), j as int)),
== at minor_matrix#5.end
ix_step(k - 1, DIM_MINUS_1 as int);
== loop minor_matrix#6 :: l in 0..j
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, j < DIM, i < k < DIM, index == ix(k - 1, l as int, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), j as int)),
== at minor_matrix#6.begin
broadcast use ix_divmod;
ix_lt(k - 1, l as int, DIM_MINUS_1 as int, DIM_MINUS_1 as int);
== at minor_matrix#6.end
assert(index == ix(k - 1, l + 1, DIM_MINUS_1 as int)) by { reveal(ix); }
== loop minor_matrix#7 :: l in (j+1)..DIM
invariant
    SquareMatrix::<DIM, N_ELEMENTS>::wf(), SquareMatrix::<DIM_MINUS_1, N_ELEMENTS_DIM_MINUS_1>::wf(), DIM == DIM_MINUS_1 + 1, 2 <= DIM <= 9, i < DIM, j < DIM, i < k < DIM, index == ix(k - 1, l - 1, DIM_MINUS_1 as int),
    forall|q: int| 0 <= q < index ==> #[trigger] elements@[q] == matrix.at(skip(q / (DIM_MINUS_1 as int), i as int), skip(q % (DIM_MINUS_1 as int), j as int)),
== at minor_matrix#7.begin
broadcast use ix_divmod;
ix_lt(k - 1, l - 1, DIM_MINUS_1 as int, DIM_MINUS_1 as int);
== at minor_matrix#7.end
assert(index == ix(k - 1, l as int, DIM_MINUS_1 as int)) by { reveal(ix); }
== at minor_matrix#5.after
ix_step(DIM - 2, DIM_MINUS_1 as int);
ix_step(DIM - 1, DIM_MINUS_1 as int);
== at minor_matrix.end
broadcast use ix_divmod;
ix_step(DIM as int, DIM as int);
assert forall|i: int, j: int| 0 <= i < DIM && 0 <= j < DIM implies #[trigger] vx_tail.at(i, j) == det(minor(matrix.rows(), i, j)) by {
    ix_lt(i, j, DIM as int, DIM as int);
}
== fn SquareMatrix::minors
requires Self::wf(), 1 <= N_ROWS <= 8,
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(i, j) == det(minor(self.rows(), i, j)),
== at SquareMatrix::minors.begin
assert(N_ELEMENTS == N_ROWS * N_ROWS);
assert(N_ROWS == 1 ==> N_ELEMENTS == 1) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 2 ==> N_ELEMENTS == 4) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 3 ==> N_ELEMENTS == 9) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 4 ==> N_ELEMENTS == 16) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 5 ==> N_ELEMENTS == 25) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 6 ==> N_ELEMENTS == 36) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 7 ==> N_ELEMENTS == 49) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 8 ==> N_ELEMENTS == 64) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
reveal(ix);
== fn SquareMatrix::inverse
requires Self::wf(), 1 <= N_ROWS <= 8,
ensures (r is Err) == (det(self.rows()) == fzero()),
    r is Ok ==> forall|i: int, j: int| Self::in_range(i, j) ==> (#[trigger] r->Ok_0.at(i, j)) == fmul(cof(self.rows(), j, i), fdiv(fone(), det(self.rows()))),
    r is Ok ==> forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] dot(self.row(i), r->Ok_0.col(j)) == (if i == j { fone() } else { fzero() }),
== at SquareMatrix::inverse.begin
broadcast use fmul_one;
lemma_sign_zero();
ix_step(0, N_ROWS as int);
assert forall|m: Self, x: Fq, i: int, j: int| Self::in_range(i, j) implies #[trigger] smul(m, x).at(i, j) == fmul(m.at(i, j), x) by { smul_at(m, x); }
assert forall|x: Self, i: int, j: int| Self::in_range(i, j) && det(self.rows()) != fzero()
    && (forall|a: int, b: int| Self::in_range(a, b) ==> #[trigger] x.at(a, b) == fmul(cof(self.rows(), b, a), fdiv(fone(), det(self.rows()))))
    implies #[trigger] dot(self.row(i), x.col(j)) == (if i == j { fone() } else { fzero() }) by {
    let m = self.rows();
    assert forall|a: int, b: int| 0 <= a < m.len() && 0 <= b < m.len() implies #[trigger] x.rows()[a][b] == fmul(cof(m, b, a), fdiv(fone(), det(m))) by {
        assert(x.rows()[a][b] == x.at(a, b));
    }
    adjugate(m, x.rows());
    assert(colv(x.rows(), j) =~= x.col(j));
    assert(m[i] == self.row(i));
}
assert forall|p: Self, q: Self| (forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] p.at(i, j) == q.at(i, j))
    implies #[trigger] p.0.elements@ == #[trigger] q.0.elements@ by {
    assert forall|k: int| 0 <= k < N_ELEMENTS implies p.0.elements@[k] == q.0.elements@[k] by {
        ix_of(k, N_ROWS as int, N_ROWS as int);
        assert(p.at(k / (N_ROWS as int), k % (N_ROWS as int)) == q.at(k / (N_ROWS as int), k % (N_ROWS as int)));
    }
    assert(p.0.elements@ =~= q.0.elements@);
}
== raw sign
B: pub proof fn lemma_sign_zero() ensures sign(0) == fone() { }
== fn MdsMatrix::inverse
requires Self::wf(), 1 <= STATE_SIZE <= 8, det(self.0.rows()) != fzero(),
ensures forall|i: int, j: int| 0 <= i < STATE_SIZE && 0 <= j < STATE_SIZE ==> #[trigger] dot(self.0.row(i), r.col(j)) == (if i == j { fone() } else { fzero() }),
## Verus does not accept a measure that mentions the const parameters across this recursion; termination is decided by S
## (the eight sizes are executed).
== attr SquareMatrix::determinant
#[verifier::exec_allows_no_decreases_clause]
== attr determinant
#[verifier::exec_allows_no_decreases_clause]
== at SquareMatrix::determinant.begin
assert(N_ELEMENTS == N_ROWS * N_ROWS);
assert(N_ROWS == 1 ==> N_ELEMENTS == 1) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 2 ==> N_ELEMENTS == 4) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 3 ==> N_ELEMENTS == 9) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 4 ==> N_ELEMENTS == 16) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 5 ==> N_ELEMENTS == 25) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 6 ==> N_ELEMENTS == 36) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 7 ==> N_ELEMENTS == 49) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
assert(N_ROWS == 8 ==> N_ELEMENTS == 64) by (nonlinear_arith) requires N_ELEMENTS == N_ROWS * N_ROWS;
