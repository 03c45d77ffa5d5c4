// Contract of the byte-order primitives the marker segments are written and read with.
//@ bytes: complete | fns=opj_write_bytes,opj_read_bytes | what=a number of 1 to 4 bytes is written and read most significant byte first, and no other byte is touched
#[kani::proof]
#[kani::unwind(8)]
fn bytes() {
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 4);
    let v: u32 = kani::any();
    let mut b: [u8; 6] = kani::any();
    let old = b;
    opj_write_bytes(unsafe { b.as_mut_ptr().add(1) }, v, n);
    let i: usize = kani::any();
    kani::assume(i < 6);
    assert!(b[i] == if i >= 1 && i <= n as usize { (v >> (8 * (n as usize - i))) as u8 } else { old[i] });
    let mut got = kani::any();
    opj_read_bytes(unsafe { b.as_ptr().add(1) }, &mut got, n);
    assert!(got == if n == 4 { v } else { v & ((1 << (8 * n)) - 1) });
    kani::cover!(n == 3);
}
