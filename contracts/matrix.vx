== type Matrix
impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize> Matrix<N_ROWS, N_COLS, N_ELEMENTS> {
    pub open spec fn wf() -> bool { N_ELEMENTS as int == N_ROWS as int * N_COLS as int }
    /// entry of row i, column j
    pub open spec fn at(&self, i: int, j: int) -> Fq { self.elements@[ix(i, j, N_COLS as int)] }
    pub open spec fn row(&self, i: int) -> Seq<Fq> { Seq::new(N_COLS as nat, |k: int| self.at(i, k)) }
    pub open spec fn col(&self, j: int) -> Seq<Fq> { Seq::new(N_ROWS as nat, |k: int| self.at(k, j)) }
    pub open spec fn in_range(i: int, j: int) -> bool { 0 <= i < N_ROWS && 0 <= j < N_COLS }
}
== type SquareMatrix
impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
    pub open spec fn wf() -> bool { Matrix::<N_ROWS, N_ROWS, N_ELEMENTS>::wf() }
    pub open spec fn at(&self, i: int, j: int) -> Fq { self.0.at(i, j) }
    pub open spec fn row(&self, i: int) -> Seq<Fq> { self.0.row(i) }
    pub open spec fn col(&self, j: int) -> Seq<Fq> { self.0.col(j) }
    pub open spec fn in_range(i: int, j: int) -> bool { 0 <= i < N_ROWS && 0 <= j < N_ROWS }
}

## ------------------------------------------------------------------ matrix_ops.rs
== fn dot_product
B: requires a@.len() == b@.len(),
ensures a@.len() == b@.len(), r == dot(a@, b@),
== at dot_product.end
assert(vx_tail == dot(a@, b@)) by {
    assert(a@.len() == b@.len());
    lemma_dot_def(a@, b@);
}
== raw dot lemma
pub proof fn lemma_dot_def(a: Seq<Fq>, b: Seq<Fq>)
    requires a.len() == b.len(),
    ensures forall|s: Seq<Fq>| s.len() == a.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == fmul(a[k], b[k]))
        ==> #[trigger] fsum(s) == dot(a, b),
{
    assert forall|s: Seq<Fq>| s.len() == a.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == fmul(a[k], b[k]))
        implies #[trigger] fsum(s) == dot(a, b) by {
        assert(s =~= Seq::new(a.len(), |k: int| fmul(a[k], b[k])));
    }
}

## ------------------------------------------------------------------ Matrix
== fn Matrix::new
B: requires Self::wf(), elements@.len() == N_ELEMENTS,
ensures Self::wf(), elements@.len() == N_ELEMENTS, r.elements@ == elements@,
== fn Matrix::new_from_known
B: requires Self::wf(),
ensures Self::wf(), r.elements == elements,
== fn Matrix::elements
ensures r@ == self.elements@,
== fn Matrix::n_rows
ensures r == N_ROWS,
== fn Matrix::n_cols
ensures r == N_COLS,
== fn Matrix::get_element
requires Self::wf(), i < N_ROWS, j < N_COLS,
ensures r == self.at(i as int, j as int),
== at Matrix::get_element.begin
ix_lt(i as int, j as int, N_COLS as int, N_ROWS as int);
== fn Matrix::set_element
requires Self::wf(), i < N_ROWS, j < N_COLS,
ensures final(self).at(i as int, j as int) == val,
    forall|a: int, b: int| Self::in_range(a, b) && (a != i || b != j) ==> #[trigger] final(self).at(a, b) == old(self).at(a, b),
    final(self).elements@ == old(self).elements@.update(ix(i as int, j as int, N_COLS as int), val),
== at Matrix::set_element.begin
broadcast use ix_divmod;
ix_lt(i as int, j as int, N_COLS as int, N_ROWS as int);
assert forall|a: int, b: int| Self::in_range(a, b) && (a != i || b != j) implies
    0 <= #[trigger] ix(a, b, N_COLS as int) < N_ELEMENTS && ix(a, b, N_COLS as int) != ix(i as int, j as int, N_COLS as int) by {
    ix_lt(a, b, N_COLS as int, N_ROWS as int);
}
== fn Matrix::iter_rows
requires Self::wf(),
B: N_COLS > 0,
ensures N_COLS > 0, r@.len() == N_ROWS,
    forall|i: int| 0 <= i < N_ROWS ==> (#[trigger] r@[i])@ == self.row(i),
== at Matrix::iter_rows.end
lemma_rows_of_chunks(*self, vx_tail@);
== raw iter_rows lemma
/// the chunks of a well-formed matrix are its rows
pub proof fn lemma_rows_of_chunks<const R: usize, const C: usize, const N: usize>(m: Matrix<R, C, N>, s: Seq<&[Fq]>)
    requires Matrix::<R, C, N>::wf(), C > 0,
        s.len() == (N + C - 1) / (C as int),
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@
            == m.elements@.subrange(k * C, if (k + 1) * C <= N { (k + 1) * C } else { N as int }),
    ensures s.len() == R, forall|i: int| 0 <= i < R ==> (#[trigger] s[i])@ == m.row(i),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(N + C - 1, C as int, R as int, C - 1);
    assert forall|i: int| 0 <= i < R implies (#[trigger] s[i])@ == m.row(i) by {
        assert((i + 1) * C <= R * C) by (nonlinear_arith) requires 0 <= i < R, C > 0;
        assert((i + 1) * C == i * C + C) by (nonlinear_arith);
        assert forall|k: int| 0 <= k < C implies #[trigger] s[i]@[k] == m.row(i)[k] by {
            ix_lt(i, k, C as int, R as int);
        }
        assert(s[i]@ =~= m.row(i));
    }
}
== fn Matrix::transpose
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(j, i) == self.at(i, j),
    Matrix::<N_COLS, N_ROWS, N_ELEMENTS>::wf(),
    forall|j: int| 0 <= j < N_COLS ==> #[trigger] r.row(j) == self.col(j),
== at Matrix::transpose.begin
mul_comm(N_ROWS as int, N_COLS as int);
ix_step(0, N_ROWS as int);
== loop Matrix::transpose#0 :: j in 0..self.n_cols()
invariant
    vx_hi0 == N_COLS,
    Self::wf(), index == ix(j as int, 0, N_ROWS as int), index <= N_ELEMENTS,
    N_ELEMENTS == N_COLS * N_ROWS,
    forall|k: int| 0 <= k < index ==> #[trigger] transposed_elements@[k] == self.at(k % (N_ROWS as int), k / (N_ROWS as int)),
== at Matrix::transpose#0.end
ix_step(j as int, N_ROWS as int);
assert((j + 1) * N_ROWS <= N_COLS * N_ROWS) by (nonlinear_arith) requires j < N_COLS;
ix_step(j + 1, N_ROWS as int);
== loop Matrix::transpose#1 :: i in 0..self.n_rows()
invariant
    vx_hi1 == N_ROWS,
    Self::wf(), j < N_COLS, index == ix(j as int, i as int, N_ROWS as int),
    N_ELEMENTS == N_COLS * N_ROWS,
    forall|k: int| 0 <= k < index ==> #[trigger] transposed_elements@[k] == self.at(k % (N_ROWS as int), k / (N_ROWS as int)),
== at Matrix::transpose#1.begin
broadcast use ix_divmod;
ix_lt(j as int, i as int, N_ROWS as int, N_COLS as int);
== at Matrix::transpose#1.end
assert(index == ix(j as int, i + 1, N_ROWS as int)) by { reveal(ix); }
== at Matrix::transpose.end
broadcast use ix_divmod;
ix_step(N_COLS as int, N_ROWS as int);
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(j, i) == self.at(i, j) by {
    ix_lt(j, i, N_ROWS as int, N_COLS as int);
}
assert forall|j: int| 0 <= j < N_COLS implies #[trigger] vx_tail.row(j) == self.col(j) by {
    assert(vx_tail.row(j) =~= self.col(j));
}
== fn Matrix::hadamard_product
requires Self::wf(),
ensures r is Ok,
    forall|i: int, j: int| Self::in_range(i, j) ==> (#[trigger] r->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)),
== at Matrix::hadamard_product.begin
ix_step(0, N_COLS as int);
== loop Matrix::hadamard_product#0 :: i in 0..self.n_rows()
invariant
    vx_hi0 == N_ROWS,
    Self::wf(), index == ix(i as int, 0, N_COLS as int), index <= N_ELEMENTS,
    forall|k: int| 0 <= k < index ==> #[trigger] new_elements@[k]
        == fmul(self.at(k / (N_COLS as int), k % (N_COLS as int)), rhs.at(k / (N_COLS as int), k % (N_COLS as int))),
== at Matrix::hadamard_product#0.end
ix_step(i as int, N_COLS as int);
assert((i + 1) * N_COLS <= N_ROWS * N_COLS) by (nonlinear_arith) requires i < N_ROWS;
ix_step(i + 1, N_COLS as int);
== loop Matrix::hadamard_product#1 :: j in 0..self.n_cols()
invariant
    vx_hi1 == N_COLS,
    Self::wf(), i < N_ROWS, index == ix(i as int, j as int, N_COLS as int),
    forall|k: int| 0 <= k < index ==> #[trigger] new_elements@[k]
        == fmul(self.at(k / (N_COLS as int), k % (N_COLS as int)), rhs.at(k / (N_COLS as int), k % (N_COLS as int))),
== at Matrix::hadamard_product#1.begin
broadcast use ix_divmod;
broadcast use group_field;
ix_lt(i as int, j as int, N_COLS as int, N_ROWS as int);
== at Matrix::hadamard_product#1.end
assert(index == ix(i as int, j + 1, N_COLS as int)) by { reveal(ix); }
== at Matrix::hadamard_product.end
broadcast use ix_divmod;
ix_step(N_ROWS as int, N_COLS as int);
assert forall|i: int, j: int| Self::in_range(i, j) implies (#[trigger] vx_tail->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)) by {
    ix_lt(i, j, N_COLS as int, N_ROWS as int);
}
== fn Matrix::mul
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(i, j) == fmul(self.at(i, j), rhs),
== loop Matrix::mul#0 :: (i,&element) in elements.iter().enumerate()
invariant
    elements@ == self.elements@, vx_it0@.len() == N_ELEMENTS,
    forall|k: int| 0 <= k < N_ELEMENTS ==> (#[trigger] vx_it0@[k]).0 == k && *vx_it0@[k].1 == self.elements@[k],
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] new_elements@[k] == fmul(self.elements@[k], rhs),
== at Matrix::mul#0.begin
broadcast use group_field;
== at Matrix::mul.end
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(i, j) == fmul(self.at(i, j), rhs) by {
    ix_lt(i, j, N_COLS as int, N_ROWS as int);
}
== fn Matrix::row_vector
requires Self::wf(), i < N_ROWS,
ensures forall|j: int| 0 <= j < N_COLS ==> #[trigger] r.at(0, j) == self.at(i as int, j),
== loop Matrix::row_vector#0 :: j in 0..N_COLS
invariant
    Self::wf(), i < N_ROWS,
    forall|k: int| 0 <= k < j ==> #[trigger] row_elements@[k] == self.at(i as int, k),
== at Matrix::row_vector.end
assert forall|j: int| 0 <= j < N_COLS implies #[trigger] vx_tail.at(0, j) == self.at(i as int, j) by {
    reveal(ix);
}
== fn mat_mul
requires Matrix::<LHS_N_ROWS, LHS_N_COLS, LHS_N_ELEMENTS>::wf(), Matrix::<RHS_N_ROWS, RHS_N_COLS, RHS_N_ELEMENTS>::wf(),
B:    LHS_N_COLS == RHS_N_ROWS, LHS_N_COLS > 0, Matrix::<LHS_N_ROWS, RHS_N_COLS, RESULT_N_ELEMENTS>::wf(),
ensures LHS_N_COLS == RHS_N_ROWS, Matrix::<LHS_N_ROWS, RHS_N_COLS, RESULT_N_ELEMENTS>::wf(),
    forall|i: int, j: int| 0 <= i < LHS_N_ROWS && 0 <= j < RHS_N_COLS ==> #[trigger] r.at(i, j) == dot(lhs.row(i), rhs.col(j)),
== at mat_mul.begin
ix_step(0, RHS_N_COLS as int);
== loop mat_mul#0 :: row in lhs.iter_rows()
invariant
    LHS_N_COLS == RHS_N_ROWS,
B:     Matrix::<LHS_N_ROWS, RHS_N_COLS, RESULT_N_ELEMENTS>::wf(),
    Matrix::<RHS_N_ROWS, RHS_N_COLS, RHS_N_ELEMENTS>::wf(), Matrix::<RHS_N_COLS, RHS_N_ROWS, RHS_N_ELEMENTS>::wf(),
    LHS_N_COLS > 0,
    vx_it0@.len() == LHS_N_ROWS, forall|i: int| 0 <= i < LHS_N_ROWS ==> (#[trigger] vx_it0@[i])@ == lhs.row(i),
    forall|j: int| 0 <= j < RHS_N_COLS ==> #[trigger] rhs_T.row(j) == rhs.col(j),
    index == ix(vx_k0 as int, 0, RHS_N_COLS as int), index <= RESULT_N_ELEMENTS,
    forall|k: int| 0 <= k < index ==> #[trigger] new_elements@[k]
        == dot(lhs.row(k / (RHS_N_COLS as int)), rhs.col(k % (RHS_N_COLS as int))),
== at mat_mul#0.end
ix_step(vx_k0 as int, RHS_N_COLS as int);
B: assert((vx_k0 + 1) * RHS_N_COLS <= LHS_N_ROWS * RHS_N_COLS) by (nonlinear_arith) requires vx_k0 < LHS_N_ROWS;
ix_step(vx_k0 + 1, RHS_N_COLS as int);
== loop mat_mul#1 :: column in rhs_T.iter_rows()
invariant
    LHS_N_COLS == RHS_N_ROWS, vx_k0 < LHS_N_ROWS, row@ == lhs.row(vx_k0 as int),
B:     Matrix::<LHS_N_ROWS, RHS_N_COLS, RESULT_N_ELEMENTS>::wf(),
    vx_it1@.len() == RHS_N_COLS, forall|j: int| 0 <= j < RHS_N_COLS ==> (#[trigger] vx_it1@[j])@ == rhs_T.row(j),
    forall|j: int| 0 <= j < RHS_N_COLS ==> #[trigger] rhs_T.row(j) == rhs.col(j),
    index == ix(vx_k0 as int, vx_k1 as int, RHS_N_COLS as int), index <= RESULT_N_ELEMENTS,
    forall|k: int| 0 <= k < index ==> #[trigger] new_elements@[k]
        == dot(lhs.row(k / (RHS_N_COLS as int)), rhs.col(k % (RHS_N_COLS as int))),
== at mat_mul#1.begin
broadcast use ix_divmod;
ix_lt(vx_k0 as int, vx_k1 as int, RHS_N_COLS as int, LHS_N_ROWS as int);
== at mat_mul#1.end
assert(index == ix(vx_k0 as int, vx_k1 + 1, RHS_N_COLS as int)) by { reveal(ix); }
== at mat_mul.end
broadcast use ix_divmod;
ix_step(LHS_N_ROWS as int, RHS_N_COLS as int);
assert forall|i: int, j: int| 0 <= i < LHS_N_ROWS && 0 <= j < RHS_N_COLS implies #[trigger] vx_tail.at(i, j) == dot(lhs.row(i), rhs.col(j)) by {
    ix_lt(i, j, RHS_N_COLS as int, LHS_N_ROWS as int);
}

## ------------------------------------------------------------------ SquareMatrix
== fn SquareMatrix::new
B: requires Self::wf(), elements@.len() == N_ELEMENTS,
ensures Self::wf(), elements@.len() == N_ELEMENTS, r.0.elements@ == elements@,
== fn SquareMatrix::new_from_known
B: requires Self::wf(),
ensures Self::wf(), r.0.elements == elements,
== fn SquareMatrix::elements
ensures r@ == self.0.elements@,
== fn SquareMatrix::n_rows
ensures r == N_ROWS,
== fn SquareMatrix::n_cols
ensures r == N_ROWS,
== fn SquareMatrix::get_element
requires Self::wf(), i < N_ROWS, j < N_ROWS,
ensures r == self.at(i as int, j as int),
== fn SquareMatrix::set_element
requires Self::wf(), i < N_ROWS, j < N_ROWS,
ensures final(self).at(i as int, j as int) == val,
    forall|a: int, b: int| Self::in_range(a, b) && (a != i || b != j) ==> #[trigger] final(self).at(a, b) == old(self).at(a, b),
== fn SquareMatrix::iter_rows
requires Self::wf(),
B: N_ROWS > 0,
ensures N_ROWS > 0, r@.len() == N_ROWS,
    forall|i: int| 0 <= i < N_ROWS ==> (#[trigger] r@[i])@ == self.row(i),
== at SquareMatrix::iter_rows.end
lemma_rows_of_chunks(self.0, vx_tail@);
== fn SquareMatrix::transpose
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(j, i) == self.at(i, j),
    forall|j: int| 0 <= j < N_ROWS ==> #[trigger] r.row(j) == self.col(j),
== at SquareMatrix::transpose.end
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(j, i) == self.at(i, j) by {
    assert(vx_tail.0.at(j, i) == self.0.at(i, j));
}
assert forall|j: int| 0 <= j < N_ROWS implies #[trigger] vx_tail.row(j) == self.col(j) by {
    assert(vx_tail.0.row(j) == self.0.col(j));
}
== fn SquareMatrix::hadamard_product
requires Self::wf(),
ensures r is Ok,
    forall|i: int, j: int| Self::in_range(i, j) ==> (#[trigger] r->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)),
== at SquareMatrix::hadamard_product.end
assert forall|i: int, j: int| Self::in_range(i, j) implies (#[trigger] vx_tail->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)) by {
    assert(vx_tail->Ok_0.0.at(i, j) == fmul(self.0.at(i, j), rhs.0.at(i, j)));
}
== fn SquareMatrix::mul
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(i, j) == fmul(self.at(i, j), rhs),
== loop SquareMatrix::mul#0 :: (i,&element) in elements.iter().enumerate()
invariant
    elements@ == self.0.elements@, vx_it0@.len() == N_ELEMENTS,
    forall|k: int| 0 <= k < N_ELEMENTS ==> (#[trigger] vx_it0@[k]).0 == k && *vx_it0@[k].1 == self.0.elements@[k],
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] new_elements@[k] == fmul(self.0.elements@[k], rhs),
== at SquareMatrix::mul#0.begin
broadcast use group_field;
== at SquareMatrix::mul.end
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(i, j) == fmul(self.at(i, j), rhs) by {
    ix_lt(i, j, N_ROWS as int, N_ROWS as int);
}
== fn SquareMatrix::row_vector
requires Self::wf(), i < N_ROWS,
ensures forall|j: int| 0 <= j < N_ROWS ==> #[trigger] r.at(0, j) == self.at(i as int, j),
== fn SquareMatrix::identity
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(i, j) == (if i == j { fone() } else { fzero() }),
== loop SquareMatrix::identity#0 :: i in 0..N_ROWS
invariant
    Self::wf(),
    forall|a: int, b: int| Self::in_range(a, b) ==> #[trigger] m.at(a, b) == (if a == b && a < i { fone() } else { fzero() }),
== at SquareMatrix::identity#0.before
assert forall|a: int, b: int| Self::in_range(a, b) implies #[trigger] m.at(a, b) == fzero() by {
    ix_lt(a, b, N_ROWS as int, N_ROWS as int);
}
== fn SquareMatrix::new_2x2
ensures r.at(0, 0) == a, r.at(0, 1) == b, r.at(1, 0) == c, r.at(1, 1) == d,
== at SquareMatrix::new_2x2.begin
reveal(ix);
== fn square_mat_mul
requires SquareMatrix::<LHS_N_ROWS, LHS_N_ELEMENTS>::wf(), SquareMatrix::<RHS_N_ROWS, RHS_N_ELEMENTS>::wf(),
B:    LHS_N_ROWS == RHS_N_ROWS, LHS_N_ROWS > 0, SquareMatrix::<LHS_N_ROWS, RESULT_N_ELEMENTS>::wf(),
ensures LHS_N_ROWS == RHS_N_ROWS, SquareMatrix::<LHS_N_ROWS, RESULT_N_ELEMENTS>::wf(),
    forall|i: int, j: int| 0 <= i < LHS_N_ROWS && 0 <= j < LHS_N_ROWS ==> #[trigger] r.at(i, j) == dot(lhs.row(i), rhs.col(j)),
== at square_mat_mul.begin
ix_step(0, LHS_N_ROWS as int);
== loop square_mat_mul#0 :: row in lhs.iter_rows()
invariant
    LHS_N_ROWS == RHS_N_ROWS, LHS_N_ROWS > 0,
B:     SquareMatrix::<LHS_N_ROWS, RESULT_N_ELEMENTS>::wf(),
    SquareMatrix::<RHS_N_ROWS, RHS_N_ELEMENTS>::wf(),
    vx_it0@.len() == LHS_N_ROWS, forall|i: int| 0 <= i < LHS_N_ROWS ==> (#[trigger] vx_it0@[i])@ == lhs.row(i),
    forall|j: int| 0 <= j < LHS_N_ROWS ==> #[trigger] rhs_T.row(j) == rhs.col(j),
    index == ix(vx_k0 as int, 0, LHS_N_ROWS as int), index <= RESULT_N_ELEMENTS,
    forall|k: int| 0 <= k < index ==> #[trigger] new_elements@[k]
        == dot(lhs.row(k / (LHS_N_ROWS as int)), rhs.col(k % (LHS_N_ROWS as int))),
== at square_mat_mul#0.end
ix_step(vx_k0 as int, LHS_N_ROWS as int);
B: assert((vx_k0 + 1) * LHS_N_ROWS <= LHS_N_ROWS * LHS_N_ROWS) by (nonlinear_arith) requires vx_k0 < LHS_N_ROWS;
ix_step(vx_k0 + 1, LHS_N_ROWS as int);
== loop square_mat_mul#1 :: column in rhs_T.iter_rows()
invariant
    LHS_N_ROWS == RHS_N_ROWS, vx_k0 < LHS_N_ROWS, row@ == lhs.row(vx_k0 as int),
B:     SquareMatrix::<LHS_N_ROWS, RESULT_N_ELEMENTS>::wf(),
    vx_it1@.len() == LHS_N_ROWS, forall|j: int| 0 <= j < LHS_N_ROWS ==> (#[trigger] vx_it1@[j])@ == rhs_T.row(j),
    forall|j: int| 0 <= j < LHS_N_ROWS ==> #[trigger] rhs_T.row(j) == rhs.col(j),
    index == ix(vx_k0 as int, vx_k1 as int, LHS_N_ROWS as int), index <= RESULT_N_ELEMENTS,
    forall|k: int| 0 <= k < index ==> #[trigger] new_elements@[k]
        == dot(lhs.row(k / (LHS_N_ROWS as int)), rhs.col(k % (LHS_N_ROWS as int))),
== at square_mat_mul#1.begin
broadcast use ix_divmod;
ix_lt(vx_k0 as int, vx_k1 as int, LHS_N_ROWS as int, LHS_N_ROWS as int);
== at square_mat_mul#1.end
assert(index == ix(vx_k0 as int, vx_k1 + 1, LHS_N_ROWS as int)) by { reveal(ix); }
== at square_mat_mul.end
broadcast use ix_divmod;
ix_step(LHS_N_ROWS as int, LHS_N_ROWS as int);
assert forall|i: int, j: int| 0 <= i < LHS_N_ROWS && 0 <= j < LHS_N_ROWS implies #[trigger] vx_tail.at(i, j) == dot(lhs.row(i), rhs.col(j)) by {
    ix_lt(i, j, LHS_N_ROWS as int, LHS_N_ROWS as int);
}
