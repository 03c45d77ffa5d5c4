//@ pi_ceildiv_pow2: complete | fns=pi::opj_uint_ceildivpow2 | what=packet iterator's ceil(a / 2^b)
#[kani::proof]
fn pi_ceildiv_pow2() {
    let (a, b): (u32, u32) = (kani::any(), kani::any());
    kani::assume(b <= 31);
    kani::cover!(a == u32::MAX && b == 31);
    let want = (a as u64 >> b) + ((a as u64 & ((1u64 << b) - 1)) != 0) as u64;
    assert!(unsafe { opj_uint_ceildivpow2(a, b) } as u64 == want);
}
