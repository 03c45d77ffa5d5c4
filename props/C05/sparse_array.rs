//@ sparse_helpers: complete | fns=sparse_array::opj_uint_ceildiv,sparse_array::opj_uint_min | what=sparse array's ceil(a / b) and min
#[kani::proof]
#[kani::solver(cvc5)]
fn sparse_helpers() {
    let (a, b): (u32, u32) = (kani::any(), kani::any());
    kani::assume(b > 0);
    kani::cover!(a == u32::MAX && b == 3);
    assert!(unsafe { opj_uint_ceildiv(a, b) } == a / b + (a % b != 0) as u32);
    assert!(unsafe { opj_uint_min(a, b) } == if a < b { a } else { b });
}
