== type PoseidonParameters
pub open spec fn sbox(a: Alpha, x: Fq) -> Fq {
    match a { Alpha::Exponent(e) => fpow(x, e as nat), Alpha::Inverse => fdiv(fone(), x) }
}
pub open spec fn full_sbox(a: Alpha, s: Seq<Fq>) -> Seq<Fq> { Seq::new(s.len(), |i: int| sbox(a, s[i])) }
pub open spec fn partial_sbox(a: Alpha, s: Seq<Fq>) -> Seq<Fq> { s.update(0, sbox(a, s[0])) }
impl<const STATE_SIZE: usize, const STATE_SIZE_MINUS_1: usize, const NUM_MDS_ELEMENTS: usize, const NUM_STATE_SIZE_MINUS_1_ELEMENTS: usize, const NUM_ROUND_ROWS: usize, const NUM_ROUND_COLS: usize, const NUM_ROUND_ELEMENTS: usize, const NUM_PARTIAL_ROUNDS: usize> PoseidonParameters<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_MDS_ELEMENTS, NUM_STATE_SIZE_MINUS_1_ELEMENTS, NUM_ROUND_ROWS, NUM_ROUND_COLS, NUM_ROUND_ELEMENTS, NUM_PARTIAL_ROUNDS> {
    /// dimensions fit together; an even number of full rounds, at least one partial round
    pub open spec fn wf(&self) -> bool {
        &&& MdsMatrix::<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_MDS_ELEMENTS, NUM_STATE_SIZE_MINUS_1_ELEMENTS>::wf()
        &&& STATE_SIZE >= 2
        &&& NUM_ROUND_COLS == STATE_SIZE
        &&& Matrix::<NUM_ROUND_ROWS, NUM_ROUND_COLS, NUM_ROUND_ELEMENTS>::wf()
        &&& self.rounds.r_F % 2 == 0
        &&& self.rounds.r_P >= 1
        &&& self.rounds.r_F + self.rounds.r_P <= NUM_ROUND_ROWS
        &&& self.rounds.r_P <= NUM_PARTIAL_ROUNDS
    }
    pub open spec fn half(&self) -> int { self.rounds.r_F as int / 2 }
    pub open spec fn mds_rows(&self) -> Seq<Seq<Fq>> { Seq::new(STATE_SIZE as nat, |i: int| self.mds.row(i)) }
    pub open spec fn mi_rows(&self) -> Seq<Seq<Fq>> { Seq::new(STATE_SIZE as nat, |i: int| self.optimized_mds.M_i.row(i)) }

    /// one round of the Poseidon permutation
    pub open spec fn ref_round(&self, r: int, s: Seq<Fq>) -> Seq<Fq> {
        let a = add_words(s, self.arc.row(r));
        let b = if r < self.half() || r >= self.half() + self.rounds.r_P { full_sbox(self.alpha, a) } else { partial_sbox(self.alpha, a) };
        mat_vec(self.mds_rows(), b)
    }
    /// the first n rounds
    pub open spec fn ref_rounds(&self, n: nat, s: Seq<Fq>) -> Seq<Fq> decreases n {
        if n == 0 { s } else { self.ref_round(n - 1, self.ref_rounds((n - 1) as nat, s)) }
    }
    /// the Poseidon permutation
    pub open spec fn ref_perm(&self, s: Seq<Fq>) -> Seq<Fq> { self.ref_rounds((self.rounds.r_F + self.rounds.r_P) as nat, s) }

    /// a full round of the optimised schedule, with row c of the optimised constants
    pub open spec fn opt_full_round(&self, c: int, s: Seq<Fq>) -> Seq<Fq> {
        mat_vec(self.mds_rows(), full_sbox(self.alpha, add_words(s, self.optimized_arc.row(c))))
    }
    pub open spec fn opt_full_rounds(&self, c: int, n: nat, s: Seq<Fq>) -> Seq<Fq> decreases n {
        if n == 0 { s } else { self.opt_full_round(c + n - 1, self.opt_full_rounds(c, (n - 1) as nat, s)) }
    }
    /// multiplication by sparse factor k
    pub open spec fn sparse(&self, k: int, s: Seq<Fq>) -> Seq<Fq> {
        Seq::new(STATE_SIZE as nat, |i: int|
            if i == 0 {
                fadd(fmul(self.optimized_mds.M_00, s[0]), dot(self.optimized_mds.w_hat_collection[k].elements@, s.subrange(1, STATE_SIZE as int)))
            } else {
                fadd(fmul(self.optimized_mds.v_collection[k].elements@[i - 1], s[0]), s[i])
            })
    }
    /// partial round number r (counted from 0) except the last one
    pub open spec fn opt_partial_round(&self, r: int, s: Seq<Fq>) -> Seq<Fq> {
        let a = partial_sbox(self.alpha, s);
        let b = a.update(0, fadd(a[0], self.optimized_arc.at(self.half() + 1 + r, 0)));
        self.sparse(self.rounds.r_P - r - 1, b)
    }
    pub open spec fn opt_partial_rounds(&self, n: nat, s: Seq<Fq>) -> Seq<Fq> decreases n {
        if n == 0 { s } else { self.opt_partial_round(n - 1, self.opt_partial_rounds((n - 1) as nat, s)) }
    }
    /// the optimised schedule of the paper
    pub open spec fn opt_perm(&self, s: Seq<Fq>) -> Seq<Fq> {
        let a = self.opt_full_rounds(0, self.half() as nat, s);
        let b = mat_vec(self.mi_rows(), add_words(a, self.optimized_arc.row(self.half())));
        let c = self.opt_partial_rounds((self.rounds.r_P - 1) as nat, b);
        let d = self.sparse(0, partial_sbox(self.alpha, c));
        self.opt_full_rounds(self.half() + self.rounds.r_P, self.half() as nat, d)
    }
}
== fn RoundNumbers::full
ensures r == self.r_F,
== fn RoundNumbers::partial
ensures r == self.r_P,
== fn RoundNumbers::total
requires self.r_P + self.r_F <= usize::MAX,
ensures r == self.r_P + self.r_F,
== fn RoundNumbers::full_mut
ensures *r == old(self).r_F, final(self).r_F == *final(r), final(self).r_P == old(self).r_P,
== fn RoundNumbers::partial_mut
ensures *r == old(self).r_P, final(self).r_P == *final(r), final(self).r_F == old(self).r_F,

== fn Instance::new
ensures r.parameters == parameters, forall|i: int| 0 <= i < STATE_SIZE ==> #[trigger] r.state_words@[i] == fzero(),
== fn Instance::output_words
ensures r == self.state_words,
== fn Instance::n_to_1_fixed_hash
requires old(self).parameters.wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == old(self).parameters.opt_perm(input_words@),
    r == final(self).state_words@[1],
== loop Instance::n_to_1_fixed_hash#0 :: (i,input_word) in input_words.iter().enumerate()
invariant
    self.parameters == old(self).parameters, vx_it0@.len() == STATE_SIZE,
    forall|k: int| 0 <= k < STATE_SIZE ==> (#[trigger] vx_it0@[k]).0 == k && *vx_it0@[k].1 == input_words@[k],
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] self.state_words@[k] == input_words@[k],
== at Instance::n_to_1_fixed_hash#0.after
assert(self.state_words@ =~= input_words@);
== fn Instance::unoptimized_n_to_1_fixed_hash
requires old(self).parameters.wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == old(self).parameters.ref_perm(input_words@),
    r == final(self).state_words@[1],
== loop Instance::unoptimized_n_to_1_fixed_hash#0 :: (i,input_word) in input_words.iter().enumerate()
invariant
    self.parameters == old(self).parameters, vx_it0@.len() == STATE_SIZE,
    forall|k: int| 0 <= k < STATE_SIZE ==> (#[trigger] vx_it0@[k]).0 == k && *vx_it0@[k].1 == input_words@[k],
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] self.state_words@[k] == input_words@[k],
== at Instance::unoptimized_n_to_1_fixed_hash#0.after
assert(self.state_words@ =~= input_words@);

== fn Instance::partial_sub_words
requires STATE_SIZE >= 1,
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == partial_sbox(old(self).parameters.alpha, old(self).state_words@),
== fn Instance::full_sub_words
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == full_sbox(old(self).parameters.alpha, old(self).state_words@),
== loop Instance::full_sub_words#0 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.alpha == Alpha::Exponent(exp),
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k] == sbox(self.parameters.alpha, old(self).state_words@[k]),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == old(self).state_words@[k],
== at Instance::full_sub_words#0.after
assert(self.state_words@ =~= full_sbox(old(self).parameters.alpha, old(self).state_words@));
== loop Instance::full_sub_words#1 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.alpha is Inverse,
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k] == sbox(self.parameters.alpha, old(self).state_words@[k]),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == old(self).state_words@[k],
== at Instance::full_sub_words#1.after
assert(self.state_words@ =~= full_sbox(old(self).parameters.alpha, old(self).state_words@));
== fn Instance::mix_layer_mds
requires old(self).parameters.wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == mat_vec(old(self).parameters.mds_rows(), old(self).state_words@),
== loop Instance::mix_layer_mds#0 :: (i,row) in self.parameters.mds.0.0.iter_rows().enumerate()
invariant
    *self == *old(self), self.parameters.wf(), vx_it0@.len() == STATE_SIZE,
    forall|k: int| 0 <= k < STATE_SIZE ==> (#[trigger] vx_it0@[k]).0 == k && vx_it0@[k].1@ == self.parameters.mds.row(k),
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] new_state_words@[k] == dot(self.parameters.mds.row(k), self.state_words@),
== at Instance::mix_layer_mds#0.begin
broadcast use group_field;
lemma_dot_def(vx_it0@[vx_k0 as int].1@, self.state_words@);
== at Instance::mix_layer_mds#0.after
assert(new_state_words@ =~= mat_vec(self.parameters.mds_rows(), self.state_words@));
== fn Instance::mix_layer_mi
requires old(self).parameters.wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == mat_vec(old(self).parameters.mi_rows(), old(self).state_words@),
== loop Instance::mix_layer_mi#0 :: (i,row) in self.parameters.optimized_mds.M_i.iter_rows().enumerate()
invariant
    *self == *old(self), self.parameters.wf(), vx_it0@.len() == STATE_SIZE,
    forall|k: int| 0 <= k < STATE_SIZE ==> (#[trigger] vx_it0@[k]).0 == k && vx_it0@[k].1@ == self.parameters.optimized_mds.M_i.row(k),
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] new_state_words@[k] == dot(self.parameters.optimized_mds.M_i.row(k), self.state_words@),
== at Instance::mix_layer_mi#0.begin
broadcast use group_field;
lemma_dot_def(vx_it0@[vx_k0 as int].1@, self.state_words@);
== at Instance::mix_layer_mi#0.after
assert(new_state_words@ =~= mat_vec(self.parameters.mi_rows(), self.state_words@));
== fn Instance::sparse_mat_mul
requires old(self).parameters.wf(), round_number < NUM_PARTIAL_ROUNDS,
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == old(self).parameters.sparse(round_number as int, old(self).state_words@),
== loop Instance::sparse_mat_mul#0 :: (i,x) in self.parameters.optimized_mds.v_collection[round_number].elements.iter().enumerate()
invariant
    *self == *old(self), self.parameters.wf(), round_number < NUM_PARTIAL_ROUNDS, vx_it0@.len() == STATE_SIZE_MINUS_1,
    forall|k: int| 0 <= k < STATE_SIZE_MINUS_1 ==> (#[trigger] vx_it0@[k]).0 == k
        && *vx_it0@[k].1 == self.parameters.optimized_mds.v_collection[round_number as int].elements@[k],
    forall|k: int| 0 <= k < vx_k0 ==> #[trigger] add_row@[k]
        == fadd(fmul(self.parameters.optimized_mds.v_collection[round_number as int].elements@[k], self.state_words@[0]), self.state_words@[k + 1]),
== at Instance::sparse_mat_mul#0.begin
broadcast use group_field;
== at Instance::sparse_mat_mul#0.after
broadcast use group_field;
lemma_dot_def(self.parameters.optimized_mds.w_hat_collection[round_number as int].elements@, self.state_words@.subrange(1, STATE_SIZE as int));
== at Instance::sparse_mat_mul.end
assert(self.state_words@ =~= old(self).parameters.sparse(round_number as int, old(self).state_words@));

== fn Instance::permute
requires old(self).parameters.wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == old(self).parameters.opt_perm(old(self).state_words@),
== loop Instance::permute#0 :: r in 0..R_f
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(),
    self.state_words@ == self.parameters.opt_full_rounds(0, r as nat, old(self).state_words@),
== loop Instance::permute#1 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), r < R_f,
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k]
        == fadd(vx_s0[k], self.parameters.optimized_arc.at(r as int, k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s0[k],
== ghost Instance::permute#1
let ghost vx_s0 = self.state_words@;
== at Instance::permute#1.begin
broadcast use group_field;
== at Instance::permute#1.after
assert(self.state_words@ =~= add_words(vx_s0, self.parameters.optimized_arc.row(r as int)));
== loop Instance::permute#2 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), round_constants_counter == R_f,
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k]
        == fadd(vx_s1[k], self.parameters.optimized_arc.at(R_f as int, k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s1[k],
== ghost Instance::permute#2
let ghost vx_s1 = self.state_words@;
== at Instance::permute#2.begin
broadcast use group_field;
== at Instance::permute#2.after
assert(self.state_words@ =~= add_words(vx_s1, self.parameters.optimized_arc.row(R_f as int)));
== ghost Instance::permute#3
let ghost vx_s2 = self.state_words@;
== loop Instance::permute#3 :: r in 0..self.parameters.rounds.partial()-1
invariant
    vx_hi3 == self.parameters.rounds.r_P - 1,
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), round_constants_counter == R_f + r,
    self.state_words@ == self.parameters.opt_partial_rounds(r as nat, vx_s2),
== at Instance::permute#3.begin
broadcast use group_field;
== ghost Instance::permute#4
let ghost vx_s3 = self.state_words@;
== loop Instance::permute#4 :: _ in 0..R_f
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(),
    round_constants_counter == R_f + self.parameters.rounds.r_P + vx_k4,
    self.state_words@ == self.parameters.opt_full_rounds(self.parameters.half() + self.parameters.rounds.r_P, vx_k4 as nat, vx_s3),
== ghost Instance::permute#5
let ghost vx_s4 = self.state_words@;
== loop Instance::permute#5 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), vx_k4 < R_f,
    round_constants_counter == R_f + self.parameters.rounds.r_P + vx_k4,
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k]
        == fadd(vx_s4[k], self.parameters.optimized_arc.at(round_constants_counter as int, k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s4[k],
== at Instance::permute#5.begin
broadcast use group_field;
== at Instance::permute#5.after
assert(self.state_words@ =~= add_words(vx_s4, self.parameters.optimized_arc.row(round_constants_counter as int)));

== fn Instance::unoptimized_permute
requires old(self).parameters.wf(),
ensures final(self).parameters == old(self).parameters,
    final(self).state_words@ == old(self).parameters.ref_perm(old(self).state_words@),
== at Instance::unoptimized_permute.begin
ix_step(0, STATE_SIZE as int);
== loop Instance::unoptimized_permute#0 :: _ in 0..R_f
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((0 + vx_k0), 0, STATE_SIZE as int),
    self.state_words@ == self.parameters.ref_rounds((0 + vx_k0) as nat, old(self).state_words@),
== ghost Instance::unoptimized_permute#1
let ghost vx_s0 = self.state_words@;
proof { ix_lt((0 + vx_k0), 0, STATE_SIZE as int, NUM_ROUND_ROWS as int); }
== loop Instance::unoptimized_permute#1 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    vx_k0 < R_f,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((0 + vx_k0), i as int, STATE_SIZE as int),
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k]
        == fadd(vx_s0[k], self.parameters.arc.at((0 + vx_k0), k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s0[k],
== at Instance::unoptimized_permute#1.begin
broadcast use group_field;
ix_lt((0 + vx_k0), i as int, STATE_SIZE as int, NUM_ROUND_ROWS as int);
== at Instance::unoptimized_permute#1.end
assert(round_constants_counter == ix((0 + vx_k0), i + 1, STATE_SIZE as int)) by { reveal(ix); }
== at Instance::unoptimized_permute#1.after
assert(self.state_words@ =~= add_words(vx_s0, self.parameters.arc.row((0 + vx_k0))));
ix_step((0 + vx_k0), STATE_SIZE as int);
== at Instance::unoptimized_permute#0.end
assert((0 + vx_k0) + 1 == (0 + (vx_k0 + 1)));
== loop Instance::unoptimized_permute#2 :: _ in 0..R_P
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + vx_k2), 0, STATE_SIZE as int),
    self.state_words@ == self.parameters.ref_rounds((R_f + vx_k2) as nat, old(self).state_words@),
== ghost Instance::unoptimized_permute#3
let ghost vx_s2 = self.state_words@;
proof { ix_lt((R_f + vx_k2), 0, STATE_SIZE as int, NUM_ROUND_ROWS as int); }
== loop Instance::unoptimized_permute#3 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    vx_k2 < R_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + vx_k2), i as int, STATE_SIZE as int),
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k]
        == fadd(vx_s2[k], self.parameters.arc.at((R_f + vx_k2), k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s2[k],
== at Instance::unoptimized_permute#3.begin
broadcast use group_field;
ix_lt((R_f + vx_k2), i as int, STATE_SIZE as int, NUM_ROUND_ROWS as int);
== at Instance::unoptimized_permute#3.end
assert(round_constants_counter == ix((R_f + vx_k2), i + 1, STATE_SIZE as int)) by { reveal(ix); }
== at Instance::unoptimized_permute#3.after
assert(self.state_words@ =~= add_words(vx_s2, self.parameters.arc.row((R_f + vx_k2))));
ix_step((R_f + vx_k2), STATE_SIZE as int);
== at Instance::unoptimized_permute#2.end
assert((R_f + vx_k2) + 1 == (R_f + (vx_k2 + 1)));
== loop Instance::unoptimized_permute#4 :: _ in 0..R_f
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + R_P + vx_k4), 0, STATE_SIZE as int),
    self.state_words@ == self.parameters.ref_rounds((R_f + R_P + vx_k4) as nat, old(self).state_words@),
== ghost Instance::unoptimized_permute#5
let ghost vx_s4 = self.state_words@;
proof { ix_lt((R_f + R_P + vx_k4), 0, STATE_SIZE as int, NUM_ROUND_ROWS as int); }
== loop Instance::unoptimized_permute#5 :: i in 0..STATE_SIZE
invariant
    self.parameters == old(self).parameters, self.parameters.wf(), R_f == self.parameters.half(), R_P == self.parameters.rounds.r_P,
    vx_k4 < R_f,
    round_constants@ == self.parameters.arc.0.elements@, round_constants_counter == ix((R_f + R_P + vx_k4), i as int, STATE_SIZE as int),
    forall|k: int| 0 <= k < i ==> #[trigger] self.state_words@[k]
        == fadd(vx_s4[k], self.parameters.arc.at((R_f + R_P + vx_k4), k)),
    forall|k: int| i <= k < STATE_SIZE ==> #[trigger] self.state_words@[k] == vx_s4[k],
== at Instance::unoptimized_permute#5.begin
broadcast use group_field;
ix_lt((R_f + R_P + vx_k4), i as int, STATE_SIZE as int, NUM_ROUND_ROWS as int);
== at Instance::unoptimized_permute#5.end
assert(round_constants_counter == ix((R_f + R_P + vx_k4), i + 1, STATE_SIZE as int)) by { reveal(ix); }
== at Instance::unoptimized_permute#5.after
assert(self.state_words@ =~= add_words(vx_s4, self.parameters.arc.row((R_f + R_P + vx_k4))));
ix_step((R_f + R_P + vx_k4), STATE_SIZE as int);
== at Instance::unoptimized_permute#4.end
assert((R_f + R_P + vx_k4) + 1 == (R_f + R_P + (vx_k4 + 1)));

== raw C03 client
B: /// Any history of earlier hashes on an instance: the next result and output words are those of a
B: /// fresh instance (they are a function of the parameters and of the input alone).
B: pub fn vx_history<'a, const STATE_SIZE: usize, const STATE_SIZE_MINUS_1: usize, const NUM_MDS_ELEMENTS: usize, const NUM_STATE_SIZE_MINUS_1_ELEMENTS: usize, const NUM_ROUND_ROWS: usize, const NUM_ROUND_COLS: usize, const NUM_ROUND_ELEMENTS: usize, const NUM_PARTIAL_ROUNDS: usize>(parameters: &'a PoseidonParameters<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_MDS_ELEMENTS, NUM_STATE_SIZE_MINUS_1_ELEMENTS, NUM_ROUND_ROWS, NUM_ROUND_COLS, NUM_ROUND_ELEMENTS, NUM_PARTIAL_ROUNDS>, kinds: &Vec<bool>, inputs: &Vec<[Fq; STATE_SIZE]>, input: &[Fq; STATE_SIZE], last: bool) -> (r: (Fq, [Fq; STATE_SIZE]))
B:     requires parameters.wf(), kinds@.len() == inputs@.len(),
B:     ensures r.1@ == (if last { parameters.opt_perm(input@) } else { parameters.ref_perm(input@) }), r.0 == r.1@[1],
B: {
B:     let mut instance = Instance::new(parameters);
B:     for k in 0..inputs.len()
B:         invariant instance.parameters == parameters, parameters.wf(), kinds@.len() == inputs@.len(),
B:     {
B:         if kinds[k] {
B:             let _ = instance.n_to_1_fixed_hash(&inputs[k]);
B:         } else {
B:             let _ = instance.unoptimized_n_to_1_fixed_hash(inputs[k]);
B:         }
B:     }
B:     let h = if last { instance.n_to_1_fixed_hash(input) } else { instance.unoptimized_n_to_1_fixed_hash(*input) };
B:     (h, instance.output_words())
B: }
