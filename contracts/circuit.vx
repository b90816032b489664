== raw circuit stand-ins
B: // Stand-ins for ark-r1cs-std.  `fval(v)` is the value that a satisfying assignment gives to v; the
B: // assumed contracts say what the constraints emitted by each gadget force.  A fresh witness has no
B: // contract on its value.
B: #[verifier::external_body]
B: #[verifier::accept_recursive_types(F)]
B: pub struct FpVar<F> { x: F }
B: pub type FqVar = FpVar<Fq>;
B: #[verifier::external_body]
B: #[verifier::accept_recursive_types(F)]
B: pub struct ConstraintSystemRef<F> { x: F }
B: #[verifier::external_body]
B: pub struct SynthesisError { x: u8 }
B: pub uninterp spec fn fval(v: FpVar<Fq>) -> Fq;
B: pub open spec fn fvals(s: Seq<FpVar<Fq>>) -> Seq<Fq> { Seq::new(s.len(), |i: int| fval(s[i])) }
B: impl<F: Clone> Clone for ConstraintSystemRef<F> {
B:     #[verifier::external_body]
B:     fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
B: }
B: impl<F: Copy> Clone for FpVar<F> {
B:     #[verifier::external_body]
B:     fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
B: }
B: impl<F: Copy> Copy for FpVar<F> {}
B: pub trait VxExpect<T>: Sized {
B:     spec fn vx_some(self) -> bool;
B:     spec fn vx_get(self) -> T;
B:     fn vx_expect(self, m: &str) -> (r: T) requires self.vx_some() ensures r == self.vx_get();
B: }
B: pub trait VxFq: Sized { spec fn fq(self) -> Fq; }
B: impl VxFq for Fq { open spec fn fq(self) -> Fq { self } }
B: impl<'a> VxFq for &'a Fq { open spec fn fq(self) -> Fq { *self } }
B: impl FpVar<Fq> {
B:     #[verifier::external_body]
B:     pub fn new_constant<T: VxFq>(cs: ConstraintSystemRef<Fq>, t: T) -> (r: Result<FpVar<Fq>, SynthesisError>)
B:         ensures r is Ok, fval(r->Ok_0) == t.fq() { unimplemented!() }
B:     #[verifier::external_body]
B:     pub fn constant(t: Fq) -> (r: FpVar<Fq>) ensures fval(r) == t { unimplemented!() }
B:     #[verifier::external_body]
B:     pub fn zero() -> (r: FpVar<Fq>) ensures fval(r) == fzero() { unimplemented!() }
B:     #[verifier::external_body]
B:     pub fn one() -> (r: FpVar<Fq>) ensures fval(r) == fone() { unimplemented!() }
B:     #[verifier::external_body]
B:     pub fn pow_by_constant(&self, e: [u64; 1]) -> (r: Result<FpVar<Fq>, SynthesisError>)
B:         ensures r is Ok, fval(r->Ok_0) == fpow(fval(*self), e@[0] as nat) { unimplemented!() }
B: }
B: impl<T, E> VxExpect<T> for Result<T, E> {
B:     open spec fn vx_some(self) -> bool { self is Ok }
B:     open spec fn vx_get(self) -> T { self->Ok_0 }
B:     #[verifier::external_body]
B:     fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() }
B: }
B: pub uninterp spec fn vadd(a: FpVar<Fq>, b: FpVar<Fq>) -> FpVar<Fq>;
B: pub uninterp spec fn vmul(a: FpVar<Fq>, b: FpVar<Fq>) -> FpVar<Fq>;
B: pub uninterp spec fn vcon(a: Fq) -> FpVar<Fq>;
B: pub broadcast axiom fn fval_add(a: FpVar<Fq>, b: FpVar<Fq>) ensures #[trigger] fval(vadd(a, b)) == fadd(fval(a), fval(b));
B: pub broadcast axiom fn fval_mul(a: FpVar<Fq>, b: FpVar<Fq>) ensures #[trigger] fval(vmul(a, b)) == fmul(fval(a), fval(b));
B: pub broadcast axiom fn fval_con(a: Fq) ensures #[trigger] fval(vcon(a)) == a;
B: pub broadcast group group_circuit { fval_add, fval_mul, fval_con }
B: impl core::ops::Add<FpVar<Fq>> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl AddSpecImpl<FpVar<Fq>> for FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: FpVar<Fq>) -> bool { true } open spec fn add_spec(self, o: FpVar<Fq>) -> FpVar<Fq> { vadd(self, o) } }
B: impl<'b> core::ops::Add<&'b FpVar<Fq>> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: &'b FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'b> AddSpecImpl<&'b FpVar<Fq>> for FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b FpVar<Fq>) -> bool { true } open spec fn add_spec(self, o: &'b FpVar<Fq>) -> FpVar<Fq> { vadd(self, *o) } }
B: impl core::ops::Add<Fq> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl AddSpecImpl<Fq> for FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fq) -> bool { true } open spec fn add_spec(self, o: Fq) -> FpVar<Fq> { vadd(self, vcon(o)) } }
B: impl<'b> core::ops::Add<&'b Fq> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: &'b Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'b> AddSpecImpl<&'b Fq> for FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b Fq) -> bool { true } open spec fn add_spec(self, o: &'b Fq) -> FpVar<Fq> { vadd(self, vcon(*o)) } }
B: impl<'a> core::ops::Add<FpVar<Fq>> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a> AddSpecImpl<FpVar<Fq>> for &'a FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: FpVar<Fq>) -> bool { true } open spec fn add_spec(self, o: FpVar<Fq>) -> FpVar<Fq> { vadd(*self, o) } }
B: impl<'a, 'b> core::ops::Add<&'b FpVar<Fq>> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: &'b FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a, 'b> AddSpecImpl<&'b FpVar<Fq>> for &'a FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b FpVar<Fq>) -> bool { true } open spec fn add_spec(self, o: &'b FpVar<Fq>) -> FpVar<Fq> { vadd(*self, *o) } }
B: impl<'a> core::ops::Add<Fq> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a> AddSpecImpl<Fq> for &'a FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fq) -> bool { true } open spec fn add_spec(self, o: Fq) -> FpVar<Fq> { vadd(*self, vcon(o)) } }
B: impl<'a, 'b> core::ops::Add<&'b Fq> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn add(self, o: &'b Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a, 'b> AddSpecImpl<&'b Fq> for &'a FpVar<Fq> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: &'b Fq) -> bool { true } open spec fn add_spec(self, o: &'b Fq) -> FpVar<Fq> { vadd(*self, vcon(*o)) } }
B: impl core::ops::Mul<FpVar<Fq>> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl MulSpecImpl<FpVar<Fq>> for FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: FpVar<Fq>) -> bool { true } open spec fn mul_spec(self, o: FpVar<Fq>) -> FpVar<Fq> { vmul(self, o) } }
B: impl<'b> core::ops::Mul<&'b FpVar<Fq>> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: &'b FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'b> MulSpecImpl<&'b FpVar<Fq>> for FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b FpVar<Fq>) -> bool { true } open spec fn mul_spec(self, o: &'b FpVar<Fq>) -> FpVar<Fq> { vmul(self, *o) } }
B: impl core::ops::Mul<Fq> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl MulSpecImpl<Fq> for FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fq) -> bool { true } open spec fn mul_spec(self, o: Fq) -> FpVar<Fq> { vmul(self, vcon(o)) } }
B: impl<'b> core::ops::Mul<&'b Fq> for FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: &'b Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'b> MulSpecImpl<&'b Fq> for FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b Fq) -> bool { true } open spec fn mul_spec(self, o: &'b Fq) -> FpVar<Fq> { vmul(self, vcon(*o)) } }
B: impl<'a> core::ops::Mul<FpVar<Fq>> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a> MulSpecImpl<FpVar<Fq>> for &'a FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: FpVar<Fq>) -> bool { true } open spec fn mul_spec(self, o: FpVar<Fq>) -> FpVar<Fq> { vmul(*self, o) } }
B: impl<'a, 'b> core::ops::Mul<&'b FpVar<Fq>> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: &'b FpVar<Fq>) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a, 'b> MulSpecImpl<&'b FpVar<Fq>> for &'a FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b FpVar<Fq>) -> bool { true } open spec fn mul_spec(self, o: &'b FpVar<Fq>) -> FpVar<Fq> { vmul(*self, *o) } }
B: impl<'a> core::ops::Mul<Fq> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a> MulSpecImpl<Fq> for &'a FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fq) -> bool { true } open spec fn mul_spec(self, o: Fq) -> FpVar<Fq> { vmul(*self, vcon(o)) } }
B: impl<'a, 'b> core::ops::Mul<&'b Fq> for &'a FpVar<Fq> { type Output = FpVar<Fq>; #[verifier::external_body] fn mul(self, o: &'b Fq) -> (r: FpVar<Fq>) { unimplemented!() } }
B: impl<'a, 'b> MulSpecImpl<&'b Fq> for &'a FpVar<Fq> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b Fq) -> bool { true } open spec fn mul_spec(self, o: &'b Fq) -> FpVar<Fq> { vmul(*self, vcon(*o)) } }
B: impl<const STATE_SIZE: usize, const STATE_SIZE_MINUS_1: usize, const NUM_MDS_ELEMENTS: usize, const NUM_STATE_SIZE_MINUS_1_ELEMENTS: usize, const NUM_ROUND_ROWS: usize, const NUM_ROUND_COLS: usize, const NUM_ROUND_ELEMENTS: usize, const NUM_PARTIAL_ROUNDS: usize> Clone for PoseidonParameters<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_MDS_ELEMENTS, NUM_STATE_SIZE_MINUS_1_ELEMENTS, NUM_ROUND_ROWS, NUM_ROUND_COLS, NUM_ROUND_ELEMENTS, NUM_PARTIAL_ROUNDS> {
B:     #[verifier::external_body]
B:     fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
B: }
== type InstanceVar
impl<const STATE_SIZE: usize, const STATE_SIZE_MINUS_1: usize, const NUM_MDS_ELEMENTS: usize, const NUM_STATE_SIZE_MINUS_1_ELEMENTS: usize, const NUM_ROUND_ROWS: usize, const NUM_ROUND_COLS: usize, const NUM_ROUND_ELEMENTS: usize, const NUM_PARTIAL_ROUNDS: usize> InstanceVar<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_MDS_ELEMENTS, NUM_STATE_SIZE_MINUS_1_ELEMENTS, NUM_ROUND_ROWS, NUM_ROUND_COLS, NUM_ROUND_ELEMENTS, NUM_PARTIAL_ROUNDS> {
    pub open spec fn wf(&self) -> bool { self.parameters.wf() && self.parameters.alpha is Exponent && self.state_words@.len() == STATE_SIZE }
    pub open spec fn vals(&self) -> Seq<Fq> { fvals(self.state_words@) }
}
== fn InstanceVar::n_to_1_fixed_hash
requires parameters.wf(), parameters.alpha is Exponent,
ensures fval(r) == parameters.ref_perm(fvals(input_words@))[1],
== fn InstanceVar::partial_sub_words
requires old(self).wf(),
ensures final(self).wf(), final(self).parameters == old(self).parameters,
    final(self).vals() == partial_sbox(old(self).parameters.alpha, old(self).vals()),
== at InstanceVar::partial_sub_words.end
assert(self.vals() =~= partial_sbox(old(self).parameters.alpha, old(self).vals()));
== fn InstanceVar::full_sub_words
requires old(self).wf(),
ensures final(self).wf(), final(self).parameters == old(self).parameters,
    final(self).vals() == full_sbox(old(self).parameters.alpha, old(self).vals()),
== loop InstanceVar::full_sub_words#0 :: i in 0..STATE_SIZE
invariant
    self.wf(), self.parameters == old(self).parameters, self.parameters.alpha == Alpha::Exponent(exp),
    old(self).state_words@.len() == STATE_SIZE,
    forall|k: int| 0 <= k < i ==> fval(#[trigger] self.state_words@[k]) == sbox(self.parameters.alpha, fval(old(self).state_words@[k])),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == old(self).state_words@[k],
== at InstanceVar::full_sub_words#0.after
assert(self.vals() =~= full_sbox(old(self).parameters.alpha, old(self).vals()));
== fn InstanceVar::mix_layer_mds
requires old(self).wf(),
ensures final(self).wf(), final(self).parameters == old(self).parameters,
    final(self).vals() == mat_vec(old(self).parameters.mds_rows(), old(self).vals()),
== loop InstanceVar::mix_layer_mds#0 :: row in self.parameters.mds.0.0.iter_rows()
invariant
    *self == *old(self), self.wf(), vx_it0@.len() == STATE_SIZE, vx_out0@.len() == vx_k0,
    forall|k: int| 0 <= k < STATE_SIZE ==> (#[trigger] vx_it0@[k])@ == self.parameters.mds.row(k),
    forall|k: int| 0 <= k < vx_k0 ==> fval(#[trigger] vx_out0@[k]) == dot(self.parameters.mds.row(k), self.vals()),
== loop InstanceVar::mix_layer_mds#1 :: (x,y) in row.iter().zip(&self.state_words)
invariant
    *self == *old(self), self.wf(), vx_it1@.len() == STATE_SIZE, vx_out1@.len() == vx_k1, row@.len() == STATE_SIZE,
    forall|k: int| 0 <= k < STATE_SIZE ==> *(#[trigger] vx_it1@[k]).0 == row@[k] && *vx_it1@[k].1 == self.state_words@[k],
    forall|k: int| 0 <= k < vx_k1 ==> fval(#[trigger] vx_out1@[k]) == fmul(row@[k], fval(self.state_words@[k])),
== at InstanceVar::mix_layer_mds#1.begin
broadcast use group_field, group_circuit;
== at InstanceVar::mix_layer_mds#0.begin
broadcast use group_field, group_circuit;
== loop InstanceVar::mix_layer_mds#2 :: y in temp_vec.iter()
invariant
    vx_it2@.len() == temp_vec@.len(),
    forall|k: int| 0 <= k < vx_it2@.len() ==> *(#[trigger] vx_it2@[k]) == temp_vec@[k],
    fval(acc) == fsum(fvals(temp_vec@).take(vx_k2 as int)),
== at InstanceVar::mix_layer_mds#2.begin
broadcast use group_field, group_circuit;
assert(fvals(temp_vec@).take(vx_k2 + 1).drop_last() =~= fvals(temp_vec@).take(vx_k2 as int));
== at InstanceVar::mix_layer_mds#2.before
assert(fvals(temp_vec@).take(0) =~= Seq::empty());
== at InstanceVar::mix_layer_mds#2.after
assert(fvals(temp_vec@).take(temp_vec@.len() as int) =~= fvals(temp_vec@));
assert(fvals(temp_vec@) =~= Seq::new(STATE_SIZE as nat, |k: int| fmul(row@[k], self.vals()[k])));
== at InstanceVar::mix_layer_mds.end
assert(self.vals() =~= mat_vec(old(self).parameters.mds_rows(), old(self).vals()));
== fn InstanceVar::permute
requires old(self).wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).wf(), final(self).vals() == old(self).parameters.ref_perm(old(self).vals()),
== at InstanceVar::permute.begin
ix_step(0, STATE_SIZE as int);
== loop InstanceVar::permute#0 :: _ in 0..R_f
invariant
    self.parameters == old(self).parameters, self.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((0 + vx_k0), 0, STATE_SIZE as int),
    self.vals() == self.parameters.ref_rounds((0 + vx_k0) as nat, old(self).vals()),
== ghost InstanceVar::permute#1
let ghost vx_s0 = self.state_words@;
proof { ix_lt((0 + vx_k0), 0, STATE_SIZE as int, NUM_ROUND_ROWS as int); }
== loop InstanceVar::permute#1 :: i in 0..STATE_SIZE
invariant
    vx_s0.len() == STATE_SIZE,
    self.parameters == old(self).parameters, self.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    vx_k0 < R_f,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((0 + vx_k0), i as int, STATE_SIZE as int),
    forall|k: int| 0 <= k < i ==> fval(#[trigger] self.state_words@[k])
        == fadd(fval(vx_s0[k]), self.parameters.arc.at((0 + vx_k0), k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s0[k],
== at InstanceVar::permute#1.begin
broadcast use group_field, group_circuit;
ix_lt((0 + vx_k0), i as int, STATE_SIZE as int, NUM_ROUND_ROWS as int);
== at InstanceVar::permute#1.end
assert(round_constants_counter == ix((0 + vx_k0), i + 1, STATE_SIZE as int)) by { reveal(ix); }
== at InstanceVar::permute#1.after
assert(self.vals() =~= add_words(fvals(vx_s0), self.parameters.arc.row((0 + vx_k0))));
ix_step((0 + vx_k0), STATE_SIZE as int);
== at InstanceVar::permute#0.end
assert((0 + vx_k0) + 1 == (0 + (vx_k0 + 1)));
== loop InstanceVar::permute#2 :: _ in 0..R_P
invariant
    self.parameters == old(self).parameters, self.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + vx_k2), 0, STATE_SIZE as int),
    self.vals() == self.parameters.ref_rounds((R_f + vx_k2) as nat, old(self).vals()),
== ghost InstanceVar::permute#3
let ghost vx_s2 = self.state_words@;
proof { ix_lt((R_f + vx_k2), 0, STATE_SIZE as int, NUM_ROUND_ROWS as int); }
== loop InstanceVar::permute#3 :: i in 0..STATE_SIZE
invariant
    vx_s2.len() == STATE_SIZE,
    self.parameters == old(self).parameters, self.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    vx_k2 < R_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + vx_k2), i as int, STATE_SIZE as int),
    forall|k: int| 0 <= k < i ==> fval(#[trigger] self.state_words@[k])
        == fadd(fval(vx_s2[k]), self.parameters.arc.at((R_f + vx_k2), k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s2[k],
== at InstanceVar::permute#3.begin
broadcast use group_field, group_circuit;
ix_lt((R_f + vx_k2), i as int, STATE_SIZE as int, NUM_ROUND_ROWS as int);
== at InstanceVar::permute#3.end
assert(round_constants_counter == ix((R_f + vx_k2), i + 1, STATE_SIZE as int)) by { reveal(ix); }
== at InstanceVar::permute#3.after
assert(self.vals() =~= add_words(fvals(vx_s2), self.parameters.arc.row((R_f + vx_k2))));
ix_step((R_f + vx_k2), STATE_SIZE as int);
== at InstanceVar::permute#2.end
assert((R_f + vx_k2) + 1 == (R_f + (vx_k2 + 1)));
== loop InstanceVar::permute#4 :: _ in 0..R_f
invariant
    self.parameters == old(self).parameters, self.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + R_P + vx_k4), 0, STATE_SIZE as int),
    self.vals() == self.parameters.ref_rounds((R_f + R_P + vx_k4) as nat, old(self).vals()),
== ghost InstanceVar::permute#5
let ghost vx_s4 = self.state_words@;
proof { ix_lt((R_f + R_P + vx_k4), 0, STATE_SIZE as int, NUM_ROUND_ROWS as int); }
== loop InstanceVar::permute#5 :: i in 0..STATE_SIZE
invariant
    vx_s4.len() == STATE_SIZE,
    self.parameters == old(self).parameters, self.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    vx_k4 < R_f,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + R_P + vx_k4), i as int, STATE_SIZE as int),
    forall|k: int| 0 <= k < i ==> fval(#[trigger] self.state_words@[k])
        == fadd(fval(vx_s4[k]), self.parameters.arc.at((R_f + R_P + vx_k4), k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s4[k],
== at InstanceVar::permute#5.begin
broadcast use group_field, group_circuit;
ix_lt((R_f + R_P + vx_k4), i as int, STATE_SIZE as int, NUM_ROUND_ROWS as int);
== at InstanceVar::permute#5.end
assert(round_constants_counter == ix((R_f + R_P + vx_k4), i + 1, STATE_SIZE as int)) by { reveal(ix); }
== at InstanceVar::permute#5.after
assert(self.vals() =~= add_words(fvals(vx_s4), self.parameters.arc.row((R_f + R_P + vx_k4))));
ix_step((R_f + R_P + vx_k4), STATE_SIZE as int);
== at InstanceVar::permute#4.end
assert((R_f + R_P + vx_k4) + 1 == (R_f + R_P + (vx_k4 + 1)));

== raw rate 1 parameters
B: pub uninterp spec fn rate_1() -> PoseidonParameters<2, 1, 4, 1, 39, 2, 78, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_1_params() -> (r: PoseidonParameters<2, 1, 4, 1, 39, 2, 78, 31>) ensures r == rate_1(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_1
ensures r == rate_1().opt_perm(seq![*domain_separator, value])[1],
== fn circuit_hash_1
ensures r is Ok, fval(r->Ok_0) == rate_1().ref_perm(seq![fval(*domain_separator), fval(value)])[1],
== at circuit_hash_1.begin
assert(fvals(seq![*domain_separator, value]) =~= seq![fval(*domain_separator), fval(value)]);
== raw rate 2 parameters
B: pub uninterp spec fn rate_2() -> PoseidonParameters<3, 2, 9, 4, 39, 3, 117, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_2_params() -> (r: PoseidonParameters<3, 2, 9, 4, 39, 3, 117, 31>) ensures r == rate_2(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_2
ensures r == rate_2().opt_perm(seq![*domain_separator, value.0, value.1])[1],
== fn circuit_hash_2
ensures r is Ok, fval(r->Ok_0) == rate_2().ref_perm(seq![fval(*domain_separator), fval(value.0), fval(value.1)])[1],
== at circuit_hash_2.begin
assert(fvals(seq![*domain_separator, value.0, value.1]) =~= seq![fval(*domain_separator), fval(value.0), fval(value.1)]);
== raw rate 3 parameters
B: pub uninterp spec fn rate_3() -> PoseidonParameters<4, 3, 16, 9, 39, 4, 156, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_3_params() -> (r: PoseidonParameters<4, 3, 16, 9, 39, 4, 156, 31>) ensures r == rate_3(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_3
ensures r == rate_3().opt_perm(seq![*domain_separator, value.0, value.1, value.2])[1],
== fn circuit_hash_3
ensures r is Ok, fval(r->Ok_0) == rate_3().ref_perm(seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2)])[1],
== at circuit_hash_3.begin
assert(fvals(seq![*domain_separator, value.0, value.1, value.2]) =~= seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2)]);
== raw rate 4 parameters
B: pub uninterp spec fn rate_4() -> PoseidonParameters<5, 4, 25, 16, 39, 5, 195, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_4_params() -> (r: PoseidonParameters<5, 4, 25, 16, 39, 5, 195, 31>) ensures r == rate_4(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_4
ensures r == rate_4().opt_perm(seq![*domain_separator, value.0, value.1, value.2, value.3])[1],
== fn circuit_hash_4
ensures r is Ok, fval(r->Ok_0) == rate_4().ref_perm(seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3)])[1],
== at circuit_hash_4.begin
assert(fvals(seq![*domain_separator, value.0, value.1, value.2, value.3]) =~= seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3)]);
== raw rate 5 parameters
B: pub uninterp spec fn rate_5() -> PoseidonParameters<6, 5, 36, 25, 39, 6, 234, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_5_params() -> (r: PoseidonParameters<6, 5, 36, 25, 39, 6, 234, 31>) ensures r == rate_5(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_5
ensures r == rate_5().opt_perm(seq![*domain_separator, value.0, value.1, value.2, value.3, value.4])[1],
== fn circuit_hash_5
ensures r is Ok, fval(r->Ok_0) == rate_5().ref_perm(seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3), fval(value.4)])[1],
== at circuit_hash_5.begin
assert(fvals(seq![*domain_separator, value.0, value.1, value.2, value.3, value.4]) =~= seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3), fval(value.4)]);
== raw rate 6 parameters
B: pub uninterp spec fn rate_6() -> PoseidonParameters<7, 6, 49, 36, 39, 7, 273, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_6_params() -> (r: PoseidonParameters<7, 6, 49, 36, 39, 7, 273, 31>) ensures r == rate_6(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_6
ensures r == rate_6().opt_perm(seq![*domain_separator, value.0, value.1, value.2, value.3, value.4, value.5])[1],
== fn circuit_hash_6
ensures r is Ok, fval(r->Ok_0) == rate_6().ref_perm(seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3), fval(value.4), fval(value.5)])[1],
== at circuit_hash_6.begin
assert(fvals(seq![*domain_separator, value.0, value.1, value.2, value.3, value.4, value.5]) =~= seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3), fval(value.4), fval(value.5)]);
== raw rate 7 parameters
B: pub uninterp spec fn rate_7() -> PoseidonParameters<8, 7, 64, 49, 39, 8, 312, 31>;
B: /// assumed: the shipped set is well formed with a positive exponent (decided on its values by C13 to C15)
B: #[verifier::external_body]
B: pub fn vx_rate_7_params() -> (r: PoseidonParameters<8, 7, 64, 49, 39, 8, 312, 31>) ensures r == rate_7(), r.wf(), r.alpha is Exponent { unimplemented!() }
== fn hash_7
ensures r == rate_7().opt_perm(seq![*domain_separator, value.0, value.1, value.2, value.3, value.4, value.5, value.6])[1],
== fn circuit_hash_7
ensures r is Ok, fval(r->Ok_0) == rate_7().ref_perm(seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3), fval(value.4), fval(value.5), fval(value.6)])[1],
== at circuit_hash_7.begin
assert(fvals(seq![*domain_separator, value.0, value.1, value.2, value.3, value.4, value.5, value.6]) =~= seq![fval(*domain_separator), fval(value.0), fval(value.1), fval(value.2), fval(value.3), fval(value.4), fval(value.5), fval(value.6)]);
