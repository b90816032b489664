// ---------------------------------------------------------------- lemmas
pub broadcast proof fn ix_divmod(i: int, j: int, n: int)
    requires 0 <= i, 0 <= j < n,
    ensures #[trigger] ix(i, j, n) / n == i, ix(i, j, n) % n == j, ix(i, j, n) >= 0,
{
    reveal(ix);
    assert(i * n + j >= 0) by (nonlinear_arith) requires 0 <= i, 0 <= j < n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j);
}
pub proof fn ix_lt(i: int, j: int, n: int, r: int)
    requires 0 <= i < r, 0 <= j < n,
    ensures 0 <= ix(i, j, n) < r * n, ix(i, j, n) == i * n + j, 0 <= i * n,
{
    reveal(ix);
    assert(0 <= i * n && i * n + j < r * n) by (nonlinear_arith) requires 0 <= i < r, 0 <= j < n;
}
pub proof fn ix_of(k: int, n: int, r: int)
    requires 0 <= k < r * n, 0 < n,
    ensures 0 <= k / n < r, 0 <= k % n < n, ix(k / n, k % n, n) == k,
{
    reveal(ix);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    assert(0 <= k / n < r) by (nonlinear_arith) requires 0 <= k < r * n, 0 < n;
    assert(n * (k / n) == (k / n) * n) by (nonlinear_arith);
}
pub proof fn ix_step(i: int, n: int)
    ensures ix(i, n, n) == ix(i + 1, 0, n), ix(0, 0, n) == 0, ix(i, 0, n) == i * n
{
    reveal(ix);
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
}
pub proof fn mul_comm(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
