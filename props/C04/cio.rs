// Contracts of the byte-level field reader/writer: big-endian, exact frame, inverse pair.
const N: usize = 12;

//@ write_bytes: complete | fns=opj_write_bytes | what=writes the low n bytes of the value most significant first at the given position; frame: no other byte changes
#[kani::proof]
#[kani::unwind(14)]
fn write_bytes() {
    let m0: [u8; N] = kani::any();
    let mut m = m0;
    let v: u32 = kani::any();
    let n: u32 = kani::any();
    let at: usize = kani::any();
    kani::assume(n >= 1 && n <= 4 && at <= N - 4);
    kani::cover!(n == 3 && at == 5);
    opj_write_bytes(unsafe { m.as_mut_ptr().add(at) }, v, n);
    let k: usize = kani::any();
    kani::assume(k < N);
    if k >= at && k < at + n as usize {
        let shift = 8 * (n as usize - 1 - (k - at));
        assert!(m[k] == ((v >> shift) & 0xFF) as u8);
    } else {
        assert!(m[k] == m0[k]);
    }
}

//@ read_bytes: complete | fns=opj_read_bytes | what=value of n bytes, most significant first, upper bits zero; reads only those n bytes; the buffer is unchanged
#[kani::proof]
#[kani::unwind(14)]
fn read_bytes() {
    let m: [u8; 4] = kani::any();
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 4);
    kani::cover!(n == 2);
    let mut v: u32 = kani::any();
    // exactly n readable bytes: the object ends there
    let p = unsafe { m.as_ptr().add(4 - n as usize) };
    opj_read_bytes(p, &mut v, n);
    let mut want = 0u64;
    let mut k = 4 - n as usize;
    while k < 4 { want = want * 256 + m[k] as u64; k += 1; }
    assert!(v as u64 == want);
}

//@ bytes_roundtrip: complete | fns=opj_write_bytes,opj_read_bytes | what=reading a written field returns the value modulo 2^(8n)
#[kani::proof]
#[kani::unwind(14)]
fn bytes_roundtrip() {
    let mut m: [u8; 4] = kani::any();
    let v: u32 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 4);
    kani::cover!(n == 4);
    opj_write_bytes(m.as_mut_ptr(), v, n);
    let mut r = 0;
    opj_read_bytes(m.as_ptr(), &mut r, n);
    assert!(r as u64 == v as u64 % (1u64 << (8 * n)));
}

//@ float_fields: complete | fns=opj_write_float,opj_read_float | what=IEEE single stored most significant byte first; every bit pattern survives; frame
#[kani::proof]
#[kani::unwind(14)]
fn float_fields() {
    let bits: u32 = kani::any();
    let m0: [u8; 6] = kani::any();
    let mut m = m0;
    kani::cover!(bits == 0x7F80_0001);
    opj_write_float(unsafe { m.as_mut_ptr().add(1) }, f32::from_bits(bits));
    assert!(m[0] == m0[0] && m[5] == m0[5]);
    assert!(m[1] == (bits >> 24) as u8 && m[2] == (bits >> 16) as u8 && m[3] == (bits >> 8) as u8 && m[4] == bits as u8);
    let mut r = 0f32;
    opj_read_float(unsafe { m.as_ptr().add(1) }, &mut r);
    assert!(r.to_bits() == bits);
}

//@ double_fields: complete | fns=opj_write_double,opj_read_double | what=IEEE double stored most significant byte first; every bit pattern survives; frame
#[kani::proof]
#[kani::unwind(14)]
fn double_fields() {
    let bits: u64 = kani::any();
    let m0: [u8; 10] = kani::any();
    let mut m = m0;
    kani::cover!(bits == 0x7FF0_0000_0000_0001);
    opj_write_double(unsafe { m.as_mut_ptr().add(1) }, f64::from_bits(bits));
    assert!(m[0] == m0[0] && m[9] == m0[9]);
    let k: usize = kani::any();
    kani::assume(k < 8);
    assert!(m[1 + k] == (bits >> (56 - 8 * k)) as u8);
    let mut r = 0f64;
    opj_read_double(unsafe { m.as_ptr().add(1) }, &mut r);
    assert!(r.to_bits() == bits);
}
