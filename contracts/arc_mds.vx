== type ArcMatrix
impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize> ArcMatrix<N_ROWS, N_COLS, N_ELEMENTS> {
    pub open spec fn wf() -> bool { Matrix::<N_ROWS, N_COLS, N_ELEMENTS>::wf() }
    pub open spec fn at(&self, i: int, j: int) -> Fq { self.0.at(i, j) }
    pub open spec fn row(&self, i: int) -> Seq<Fq> { self.0.row(i) }
    pub open spec fn in_range(i: int, j: int) -> bool { 0 <= i < N_ROWS && 0 <= j < N_COLS }
}
== type OptimizedArcMatrix
impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize> OptimizedArcMatrix<N_ROWS, N_COLS, N_ELEMENTS> {
    pub open spec fn wf() -> bool { Matrix::<N_ROWS, N_COLS, N_ELEMENTS>::wf() }
    pub open spec fn at(&self, i: int, j: int) -> Fq { self.0.at(i, j) }
    pub open spec fn row(&self, i: int) -> Seq<Fq> { self.0.row(i) }
    pub open spec fn in_range(i: int, j: int) -> bool { 0 <= i < N_ROWS && 0 <= j < N_COLS }
}
== type MdsMatrix
impl<const STATE_SIZE: usize, const STATE_SIZE_MINUS_1: usize, const NUM_ELEMENTS: usize, const NUM_ELEMENTS_STATE_SIZE_MINUS_1_2: usize>
    MdsMatrix<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_ELEMENTS, NUM_ELEMENTS_STATE_SIZE_MINUS_1_2> {
    pub open spec fn wf() -> bool {
        &&& SquareMatrix::<STATE_SIZE, NUM_ELEMENTS>::wf()
        &&& STATE_SIZE as int == STATE_SIZE_MINUS_1 as int + 1
        &&& SquareMatrix::<STATE_SIZE_MINUS_1, NUM_ELEMENTS_STATE_SIZE_MINUS_1_2>::wf()
    }
    pub open spec fn at(&self, i: int, j: int) -> Fq { self.0.at(i, j) }
    pub open spec fn row(&self, i: int) -> Seq<Fq> { self.0.row(i) }
    pub open spec fn in_range(i: int, j: int) -> bool { 0 <= i < STATE_SIZE && 0 <= j < STATE_SIZE }
}
== fn ArcMatrix::elements
ensures r@ == self.0.elements@,
== fn ArcMatrix::n_rows
ensures r == N_ROWS,
== fn ArcMatrix::n_cols
ensures r == N_COLS,
== fn ArcMatrix::get_element
requires Self::wf(), i < N_ROWS, j < N_COLS,
ensures r == self.at(i as int, j as int),
== fn ArcMatrix::set_element
requires Self::wf(), i < N_ROWS, j < N_COLS,
ensures final(self).at(i as int, j as int) == val,
    forall|a: int, b: int| Self::in_range(a, b) && (a != i || b != j) ==> #[trigger] final(self).at(a, b) == old(self).at(a, b),
== fn ArcMatrix::iter_rows
requires Self::wf(),
B: N_COLS > 0,
ensures N_COLS > 0, r@.len() == N_ROWS,
    forall|i: int| 0 <= i < N_ROWS ==> (#[trigger] r@[i])@ == self.row(i),
== at ArcMatrix::iter_rows.end
lemma_rows_of_chunks(self.0, vx_tail@);
== fn ArcMatrix::hadamard_product
requires Self::wf(),
ensures r is Ok,
    forall|i: int, j: int| Self::in_range(i, j) ==> (#[trigger] r->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)),
== at ArcMatrix::hadamard_product.end
assert forall|i: int, j: int| Self::in_range(i, j) implies (#[trigger] vx_tail->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)) by {
    assert(vx_tail->Ok_0.0.at(i, j) == fmul(self.0.at(i, j), rhs.0.at(i, j)));
}
== fn ArcMatrix::transpose
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(j, i) == self.at(i, j),
== at ArcMatrix::transpose.end
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(j, i) == self.at(i, j) by {
    assert(vx_tail.0.at(j, i) == self.0.at(i, j));
}
== fn ArcMatrix::new
B: requires Self::wf(), elements@.len() == N_ELEMENTS,
ensures Self::wf(), elements@.len() == N_ELEMENTS, r.0.elements@ == elements@,
== fn ArcMatrix::new_from_known
B: requires Self::wf(),
ensures Self::wf(), r.0.elements == elements,
== fn OptimizedArcMatrix::elements
ensures r@ == self.0.0.elements@,
== fn OptimizedArcMatrix::n_rows
ensures r == N_ROWS,
== fn OptimizedArcMatrix::n_cols
ensures r == N_COLS,
== fn OptimizedArcMatrix::get_element
requires Self::wf(), i < N_ROWS, j < N_COLS,
ensures r == self.at(i as int, j as int),
== fn OptimizedArcMatrix::set_element
requires Self::wf(), i < N_ROWS, j < N_COLS,
ensures final(self).at(i as int, j as int) == val,
    forall|a: int, b: int| Self::in_range(a, b) && (a != i || b != j) ==> #[trigger] final(self).at(a, b) == old(self).at(a, b),
== fn OptimizedArcMatrix::iter_rows
requires Self::wf(),
B: N_COLS > 0,
ensures N_COLS > 0, r@.len() == N_ROWS,
    forall|i: int| 0 <= i < N_ROWS ==> (#[trigger] r@[i])@ == self.row(i),
== at OptimizedArcMatrix::iter_rows.end
lemma_rows_of_chunks(self.0.0, vx_tail@);
== fn OptimizedArcMatrix::hadamard_product
requires Self::wf(),
ensures r is Ok,
    forall|i: int, j: int| Self::in_range(i, j) ==> (#[trigger] r->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)),
== at OptimizedArcMatrix::hadamard_product.end
assert forall|i: int, j: int| Self::in_range(i, j) implies (#[trigger] vx_tail->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)) by {
    assert(vx_tail->Ok_0.0.at(i, j) == fmul(self.0.at(i, j), rhs.0.at(i, j)));
}
== fn OptimizedArcMatrix::transpose
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(j, i) == self.at(i, j),
== at OptimizedArcMatrix::transpose.end
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(j, i) == self.at(i, j) by {
    assert(vx_tail.0.at(j, i) == self.0.at(i, j));
}
== fn OptimizedArcMatrix::new
B: requires Self::wf(), elements@.len() == N_ELEMENTS,
ensures Self::wf(), elements@.len() == N_ELEMENTS, r.0.0.elements@ == elements@,
== fn OptimizedArcMatrix::new_from_known
B: requires Self::wf(),
ensures Self::wf(), r.0.0.elements == elements,
== fn ArcMatrix::inner_elements
ensures r == self.0.elements,
== fn MdsMatrix::elements
ensures r@ == self.0.0.elements@,
== fn MdsMatrix::n_rows
ensures r == STATE_SIZE,
== fn MdsMatrix::n_cols
ensures r == STATE_SIZE,
== fn MdsMatrix::get_element
requires Self::wf(), i < STATE_SIZE, j < STATE_SIZE,
ensures r == self.at(i as int, j as int),
== fn MdsMatrix::set_element
requires Self::wf(), i < STATE_SIZE, j < STATE_SIZE,
ensures final(self).at(i as int, j as int) == val,
    forall|a: int, b: int| Self::in_range(a, b) && (a != i || b != j) ==> #[trigger] final(self).at(a, b) == old(self).at(a, b),
== fn MdsMatrix::iter_rows
requires Self::wf(),
B: STATE_SIZE > 0,
ensures STATE_SIZE > 0, r@.len() == STATE_SIZE,
    forall|i: int| 0 <= i < STATE_SIZE ==> (#[trigger] r@[i])@ == self.row(i),
== at MdsMatrix::iter_rows.end
lemma_rows_of_chunks(self.0.0, vx_tail@);
== fn MdsMatrix::hadamard_product
requires Self::wf(),
ensures r is Ok,
    forall|i: int, j: int| Self::in_range(i, j) ==> (#[trigger] r->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)),
== at MdsMatrix::hadamard_product.end
assert forall|i: int, j: int| Self::in_range(i, j) implies (#[trigger] vx_tail->Ok_0.at(i, j)) == fmul(self.at(i, j), rhs.at(i, j)) by {
    assert(vx_tail->Ok_0.0.at(i, j) == fmul(self.0.at(i, j), rhs.0.at(i, j)));
}
== fn MdsMatrix::transpose
requires Self::wf(),
ensures forall|i: int, j: int| Self::in_range(i, j) ==> #[trigger] r.at(j, i) == self.at(i, j),
== at MdsMatrix::transpose.end
assert forall|i: int, j: int| Self::in_range(i, j) implies #[trigger] vx_tail.at(j, i) == self.at(i, j) by {
    assert(vx_tail.0.at(j, i) == self.0.at(i, j));
}
== fn MdsMatrix::new
B: requires Self::wf(), elements@.len() == NUM_ELEMENTS,
ensures Self::wf(), elements@.len() == NUM_ELEMENTS, r.0.0.elements@ == elements@,
== fn MdsMatrix::from_elements
B: requires Self::wf(), elements@.len() == NUM_ELEMENTS,
ensures Self::wf(), elements@.len() == NUM_ELEMENTS, r.0.0.elements@ == elements@,
== fn MdsMatrix::new_from_known
B: requires Self::wf(),
ensures Self::wf(), r.0.0.elements == elements,
== fn MdsMatrix::v
requires Self::wf(), STATE_SIZE > 1,
ensures forall|j: int| 0 <= j < STATE_SIZE_MINUS_1 ==> #[trigger] r.at(0, j) == self.at(0, j + 1),
== fn MdsMatrix::w
requires Self::wf(),
ensures forall|i: int| 0 <= i < STATE_SIZE_MINUS_1 ==> #[trigger] r.at(i, 0) == self.at(i + 1, 0),
== at MdsMatrix::v.begin
reveal(ix);
assert(STATE_SIZE * STATE_SIZE >= STATE_SIZE) by (nonlinear_arith) requires STATE_SIZE > 1;
== loop MdsMatrix::w#0 :: i in 1..self.n_rows()
invariant
    vx_hi0 == STATE_SIZE,
    Self::wf(),
    forall|k: int| 0 <= k < i - 1 ==> #[trigger] elements@[k] == self.at(k + 1, 0),
== at MdsMatrix::w.end
assert forall|i: int| 0 <= i < STATE_SIZE_MINUS_1 implies #[trigger] vx_tail.at(i, 0) == self.at(i + 1, 0) by {
    ix_lt(i, 0, 1, STATE_SIZE_MINUS_1 as int);
}
== fn MdsMatrix::hat
requires Self::wf(),
ensures forall|i: int, j: int| 0 <= i < STATE_SIZE_MINUS_1 && 0 <= j < STATE_SIZE_MINUS_1 ==> #[trigger] r.at(i, j) == self.at(i + 1, j + 1),
== at MdsMatrix::hat.begin
ix_step(0, STATE_SIZE_MINUS_1 as int);
== loop MdsMatrix::hat#0 :: i in 1..dim
invariant
    Self::wf(), dim == STATE_SIZE, index == ix(i - 1, 0, STATE_SIZE_MINUS_1 as int), index <= NUM_ELEMENTS_STATE_SIZE_MINUS_1_2,
    forall|k: int| 0 <= k < index ==> #[trigger] mhat_elements@[k]
        == self.at(k / (STATE_SIZE_MINUS_1 as int) + 1, k % (STATE_SIZE_MINUS_1 as int) + 1),
== at MdsMatrix::hat#0.end
ix_step(i - 1, STATE_SIZE_MINUS_1 as int);
assert(i * STATE_SIZE_MINUS_1 <= STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1) by (nonlinear_arith) requires i <= STATE_SIZE_MINUS_1;
ix_step(i as int, STATE_SIZE_MINUS_1 as int);
== loop MdsMatrix::hat#1 :: j in 1..dim
invariant
    Self::wf(), dim == STATE_SIZE, 1 <= i < dim, index == ix(i - 1, j - 1, STATE_SIZE_MINUS_1 as int),
    forall|k: int| 0 <= k < index ==> #[trigger] mhat_elements@[k]
        == self.at(k / (STATE_SIZE_MINUS_1 as int) + 1, k % (STATE_SIZE_MINUS_1 as int) + 1),
== at MdsMatrix::hat#1.begin
broadcast use ix_divmod;
ix_lt(i - 1, j - 1, STATE_SIZE_MINUS_1 as int, STATE_SIZE_MINUS_1 as int);
== at MdsMatrix::hat#1.end
assert(index == ix(i - 1, j as int, STATE_SIZE_MINUS_1 as int)) by { reveal(ix); }
== at MdsMatrix::hat.end
broadcast use ix_divmod;
ix_step(STATE_SIZE_MINUS_1 as int, STATE_SIZE_MINUS_1 as int);
assert forall|i: int, j: int| 0 <= i < STATE_SIZE_MINUS_1 && 0 <= j < STATE_SIZE_MINUS_1 implies #[trigger] vx_tail.at(i, j) == self.at(i + 1, j + 1) by {
    ix_lt(i, j, STATE_SIZE_MINUS_1 as int, STATE_SIZE_MINUS_1 as int);
}
== at MdsMatrix::new.end
A: assert(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 <= STATE_SIZE * STATE_SIZE) by (nonlinear_arith) requires STATE_SIZE_MINUS_1 < STATE_SIZE;
A: assert(0 <= STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1) by (nonlinear_arith);
A: assert(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 <= NUM_ELEMENTS <= usize::MAX);
A: vstd::arithmetic::div_mod::lemma_small_mod((STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1) as nat, (usize::MAX + 1) as nat);
A: assert(STATE_SIZE_MINUS_1.wrapping_mul(STATE_SIZE_MINUS_1) == STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1);
== at MdsMatrix::new_from_known.end
A: assert(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 <= STATE_SIZE * STATE_SIZE) by (nonlinear_arith) requires STATE_SIZE_MINUS_1 < STATE_SIZE;
A: assert(0 <= STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1) by (nonlinear_arith);
A: assert(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 <= NUM_ELEMENTS <= usize::MAX);
A: vstd::arithmetic::div_mod::lemma_small_mod((STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1) as nat, (usize::MAX + 1) as nat);
A: assert(STATE_SIZE_MINUS_1.wrapping_mul(STATE_SIZE_MINUS_1) == STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1);
