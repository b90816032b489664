//! C16: contracts of the machine-integer helpers, over the full domain of their arguments (no loops,
//! no unwinding bound: each harness is a complete proof of the postconditions it asserts).
#[cfg(kani)]
mod proofs {
    use poseidon_parameters::v1::*;

    /// little-endian value of four bytes, as a mathematical sum
    fn value(b: [u8; 4]) -> u64 {
        b[0] as u64 + 0x100 * b[1] as u64 + 0x10000 * b[2] as u64 + 0x1000000 * b[3] as u64
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn alpha_bytes() {
        let e: u32 = kani::any();
        kani::cover!(e == u32::MAX);
        assert!(value(Alpha::Exponent(e).to_bytes_le()) == e as u64, "to_bytes_le is the little-endian exponent");
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn alpha_inverse_bytes() {
        assert!(Alpha::Inverse.to_bytes_le() == [0xff; 4], "Inverse encodes to all ones");
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn alpha_f64() {
        let e: u32 = kani::any();
        let f: f64 = Alpha::Exponent(e).into();
        kani::cover!(e == 0);
        // every u32 is exactly representable: the conversion back is the identity only for the exact value,
        // and the fractional part vanishes
        assert!(f >= 0.0 && f <= 4294967295.0, "f64 form in range");
        assert!(f as u64 == e as u64, "f64 form has the exponent's integer part");
        assert!((f as u64) as f64 == f, "f64 form is an integer");
        assert!(f.to_bits() == (e as f64).to_bits(), "f64 form is the exact value (and +0.0)");
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn alpha_inverse_f64() {
        let f: f64 = Alpha::Inverse.into();
        assert!(f == -1.0, "Inverse is -1");
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn rounds_getters() {
        let (rp, rf): (usize, usize) = (kani::any(), kani::any());
        let r = RoundNumbers { r_P: rp, r_F: rf };
        assert!(r.full() == rf, "full");
        assert!(r.partial() == rp, "partial");
        assert!(r.r_P == rp && r.r_F == rf, "getters do not modify");
        kani::assume(rp.checked_add(rf).is_some());
        kani::cover!(rp != rf && rp > 0);
        assert!(r.total() as u128 == rp as u128 + rf as u128, "total is the sum");
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn rounds_full_mut() {
        let (rp, rf, n): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
        let mut r = RoundNumbers { r_P: rp, r_F: rf };
        assert!(*r.full_mut() == rf, "full_mut points to the full count");
        *r.full_mut() = n;
        kani::cover!(n != rf);
        assert!(r.r_F == n && r.full() == n, "full_mut writes the full count");
        assert!(r.r_P == rp && r.partial() == rp, "full_mut leaves the partial count");
    }
    #[kani::proof]
    #[kani::unwind(70)]
    fn rounds_partial_mut() {
        let (rp, rf, n): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
        let mut r = RoundNumbers { r_P: rp, r_F: rf };
        assert!(*r.partial_mut() == rp, "partial_mut points to the partial count");
        *r.partial_mut() = n;
        kani::cover!(n != rp);
        assert!(r.r_P == n && r.partial() == n, "partial_mut writes the partial count");
        assert!(r.r_F == rf && r.full() == rf, "partial_mut leaves the full count");
    }
}
