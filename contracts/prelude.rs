// ---------------------------------------------------------------- stand-in for decaf377::Fq
// Assumed contracts: the operators of decaf377::Fq are functions of their operands; `power` is
// repeated multiplication; division by zero does not return.
#[verifier::external_body]
pub struct Fq { x: u64 }

pub uninterp spec fn fadd(a: Fq, b: Fq) -> Fq;
pub uninterp spec fn fsub(a: Fq, b: Fq) -> Fq;
pub uninterp spec fn fmul(a: Fq, b: Fq) -> Fq;
pub uninterp spec fn fdiv(a: Fq, b: Fq) -> Fq;
pub uninterp spec fn fneg(a: Fq) -> Fq;
pub uninterp spec fn ffrom(n: nat) -> Fq;
pub open spec fn fzero() -> Fq { ffrom(0) }
pub open spec fn fone() -> Fq { ffrom(1) }
pub open spec fn fpow(x: Fq, n: nat) -> Fq decreases n {
    if n == 0 { fone() } else { fmul(fpow(x, (n - 1) as nat), x) }
}
pub broadcast axiom fn fadd_comm(a: Fq, b: Fq) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn fmul_comm(a: Fq, b: Fq) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast group group_field { fadd_comm, fmul_comm }

impl Clone for Fq {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { Fq { x: self.x } }
}
impl Copy for Fq {}
impl core::ops::Mul for Fq { type Output = Fq; #[verifier::external_body] fn mul(self, o: Fq) -> (r: Fq) { self } }
impl MulSpecImpl for Fq {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Fq) -> bool { true }
    open spec fn mul_spec(self, o: Fq) -> Fq { fmul(self, o) }
}
impl core::ops::Add for Fq { type Output = Fq; #[verifier::external_body] fn add(self, o: Fq) -> (r: Fq) { self } }
impl AddSpecImpl for Fq {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Fq) -> bool { true }
    open spec fn add_spec(self, o: Fq) -> Fq { fadd(self, o) }
}
impl core::ops::Sub for Fq { type Output = Fq; #[verifier::external_body] fn sub(self, o: Fq) -> (r: Fq) { self } }
impl SubSpecImpl for Fq {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Fq) -> bool { true }
    open spec fn sub_spec(self, o: Fq) -> Fq { fsub(self, o) }
}
impl core::ops::Div for Fq { type Output = Fq; #[verifier::external_body] fn div(self, o: Fq) -> (r: Fq) { self } }
impl DivSpecImpl for Fq {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Fq) -> bool { true }
    open spec fn div_spec(self, o: Fq) -> Fq { fdiv(self, o) }
}
impl core::ops::Neg for Fq { type Output = Fq; #[verifier::external_body] fn neg(self) -> (r: Fq) { self } }
impl NegSpecImpl for Fq {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Fq { fneg(self) }
}
impl Fq {
    #[verifier::external_body]
    pub fn default() -> (r: Fq) ensures r == fzero() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(n: u64) -> (r: Fq) ensures r == ffrom(n as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn power(&self, e: [u64; 1]) -> (r: Fq) ensures r == fpow(*self, e@[0] as nat) { unimplemented!() }
}

// ---------------------------------------------------------------- panics
// Mode B: a reachable panic is a failed obligation.  Mode A: a panic does not return.
#[verifier::external_body]
/*A*/pub fn vx_panic<T>() -> (r: T) ensures false { panic!() }
/*B*/pub fn vx_panic<T>() -> (r: T) requires false { panic!() }

// ---------------------------------------------------------------- arrays and slices
#[verifier::external_body]
pub fn vx_rep<T: Copy, const N: usize>(x: T) -> (r: [T; N])
    ensures r@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == x { [x; N] }

#[verifier::external_body]
pub fn vx_try_into<const N: usize>(x: &[Fq]) -> (r: [Fq; N])
/*B*/    requires x@.len() == N,
    ensures x@.len() == N, r@ == x@ { x.try_into().unwrap() }

#[verifier::external_body]
pub fn vx_ref<T>(s: &[T], i: usize) -> (r: &T)
/*B*/    requires i < s@.len(),
    ensures i < s@.len(), *r == s@[i as int] { &s[i] }

#[verifier::external_body]
pub fn vx_set<T, const N: usize>(s: &mut [T; N], i: usize, v: T)
/*B*/    requires i < N,
    ensures i < N, final(s)@ == old(s)@.update(i as int, v) { s[i] = v }

#[verifier::external_body]
pub fn vx_copy_range<const N: usize>(s: &mut [Fq; N], a: usize, b: usize, src: &[Fq])
/*B*/    requires a <= b <= N, src@.len() == b - a,
    ensures a <= b <= N, src@.len() == b - a,
        final(s)@ == Seq::new(N as nat, |k: int| if a <= k < b { src@[k - a] } else { old(s)@[k] }) { s[a..b].copy_from_slice(src) }

// ---------------------------------------------------------------- iterators as sequences of items
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { v: Vec<T> }

impl<T> View for VxIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

impl<T: Copy> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn vx_at(&self, k: usize) -> (r: T) requires k < self@.len() ensures r == self@[k as int] { self.v[k] }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (k as usize, self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<U: Copy>(self, o: VxIter<U>) -> (r: VxIter<(T, U)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (self@[k], o@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|k: int| 0 <= k < self@.len() ==> call_requires(f, (#[trigger] self@[k],)),
        ensures r@.len() == self@.len(),
            forall|k: int| 0 <= k < r@.len() ==> call_ensures(f, (self@[k],), #[trigger] r@[k]) { unimplemented!() }
}
impl VxIter<Fq> {
    #[verifier::external_body]
    pub fn vx_sum(self) -> (r: Fq) ensures r == fsum(self@) { unimplemented!() }
}
pub trait VxItems {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn vx_to_vec(&self) -> (r: Vec<Self::Item>) where Self::Item: Copy
        ensures r@ == self.items();
    fn vx_iter(&self) -> (r: VxIter<&Self::Item>)
        ensures r@.len() == self.items().len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.items()[k];
    fn vx_slice(&self, a: usize, b: usize) -> (r: &[Self::Item])
/*B*/        requires a <= b <= self.items().len(),
        ensures a <= b <= self.items().len(), r@ == self.items().subrange(a as int, b as int);
    fn vx_slice_from(&self, a: usize) -> (r: &[Self::Item])
/*B*/        requires a <= self.items().len(),
        ensures a <= self.items().len(), r@ == self.items().subrange(a as int, self.items().len() as int);
    fn vx_chunks(&self, n: usize) -> (r: VxIter<&[Self::Item]>)
/*B*/        requires n > 0,
        ensures n > 0,
            r@.len() == (self.items().len() + n - 1) / (n as int),
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@
                == self.items().subrange(k * n, if (k + 1) * n <= self.items().len() { (k + 1) * n } else { self.items().len() as int });
}
impl<T> VxItems for [T] {
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VxIter<&[T]>) { unimplemented!() }
}
impl<T> VxItems for Vec<T> {
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VxIter<&[T]>) { unimplemented!() }
}
impl<T, const N: usize> VxItems for [T; N] {
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VxIter<&[T]>) { unimplemented!() }
}
