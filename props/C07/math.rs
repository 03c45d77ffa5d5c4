//@ floorlog2: complete | fns=opj_int_floorlog2,opj_uint_floorlog2 | what=for every 32-bit argument the integer part of the base-2 logarithm (0 for arguments below 2)
#[kani::proof]
#[kani::unwind(34)]
fn floorlog2() {
    let a: u32 = kani::any();
    assert!(opj_uint_floorlog2(a) == if a <= 1 { 0 } else { 31 - a.leading_zeros() });
    let b = a as i32;
    assert!(opj_int_floorlog2(b) == if b <= 1 { 0 } else { 31 - b.leading_zeros() as i32 });
    kani::cover!(a == u32::MAX);
    kani::cover!(b == i32::MAX);
}
