// Contracts of the multiple component transforms: ISO/IEC 15444-1 Annex G, 15444-2 Annex J.
const N: usize = 3;
fn px() -> [i32; N] { [kani::any(), kani::any(), kani::any()] }
fn within(a: &[i32; N], lim: i32) {
    let mut i = 0;
    while i < N { kani::assume(a[i] >= -lim && a[i] < lim); i += 1; }
}

//@ rct: bounded(up to 3 samples per call, every sample value of up to 29 bits) | fns=opj_mct_encode,opj_mct_decode | what=the forward transform is G.2.1's, the inverse undoes it exactly, and no sample past the given number is touched
#[kani::proof]
#[kani::unwind(5)]
fn rct() {
    let (mut r, mut g, mut b) = (px(), px(), px());
    within(&r, 1 << 28);
    within(&g, 1 << 28);
    within(&b, 1 << 28);
    let (r0, g0, b0) = (r, g, b);
    let n: usize = kani::any();
    kani::assume(n <= N);
    unsafe { opj_mct_encode(r.as_mut_ptr(), g.as_mut_ptr(), b.as_mut_ptr(), n) };
    let mut i = 0;
    while i < N {
        if i < n {
            assert!(r[i] == (r0[i] + 2 * g0[i] + b0[i]).div_euclid(4));
            assert!(g[i] == b0[i] - g0[i]);
            assert!(b[i] == r0[i] - g0[i]);
        } else {
            assert!(r[i] == r0[i] && g[i] == g0[i] && b[i] == b0[i]);
        }
        i += 1;
    }
    unsafe { opj_mct_decode(r.as_mut_ptr(), g.as_mut_ptr(), b.as_mut_ptr(), n) };
    i = 0;
    while i < N {
        assert!(r[i] == r0[i] && g[i] == g0[i] && b[i] == b0[i]);
        i += 1;
    }
    kani::cover!(n == 3 && r0[1] > g0[1]);
    kani::cover!(n == 0);
}

//@ rct_inverse: bounded(up to 3 samples per call, every value of up to 29 bits) | fns=opj_mct_decode | what=the inverse transform is G.2.2's for any transformed values, also ones no forward transform produces
#[kani::proof]
#[kani::unwind(5)]
fn rct_inverse() {
    let (mut y, mut u, mut v) = (px(), px(), px());
    within(&y, 1 << 28);
    within(&u, 1 << 28);
    within(&v, 1 << 28);
    let (y0, u0, v0) = (y, u, v);
    let n: usize = kani::any();
    kani::assume(n <= N);
    unsafe { opj_mct_decode(y.as_mut_ptr(), u.as_mut_ptr(), v.as_mut_ptr(), n) };
    let mut i = 0;
    while i < N {
        if i < n {
            let g = y0[i] - (u0[i] + v0[i]).div_euclid(4);
            assert!(u[i] == g && y[i] == v0[i] + g && v[i] == u0[i] + g);
        } else {
            assert!(y[i] == y0[i] && u[i] == u0[i] && v[i] == v0[i]);
        }
        i += 1;
    }
    kani::cover!(n == 2);
}

fn near(a: f32, num: i64, den: i64) -> bool {
    // |a - num/den| <= 1/16
    let s = (a as f64) * 16.0 * den as f64;
    let w = num as f64 * 16.0;
    s <= w + den as f64 && s >= w - den as f64
}
/// one channel carries any 12-bit sample, the others none
fn lone() -> ([f32; 3], i64, usize) {
    let x: i16 = kani::any();
    kani::assume(x >= -2048 && x <= 2047);
    let c: usize = kani::any();
    kani::assume(c < 3);
    let mut v = [0f32; 3];
    v[c] = x as f32;
    (v, x as i64, c)
}

//@ ict_forward: bounded(one sample, one channel at a time, every 12-bit value) | fns=opj_mct_encode_real | what=each input channel contributes to each output with G.3.1's coefficient
#[kani::proof]
fn ict_forward() {
    let (mut v, x, c) = lone();
    let [ref mut r, ref mut g, ref mut b] = v;
    unsafe { opj_mct_encode_real(r, g, b, 1) };
    // Table of G.3.1, times 10^5
    let m: [[i64; 3]; 3] = [[29900, 58700, 11400], [-16875, -33126, 50000], [50000, -41869, -8131]];
    assert!(near(v[0], m[0][c] * x, 100000));
    assert!(near(v[1], m[1][c] * x, 100000));
    assert!(near(v[2], m[2][c] * x, 100000));
    kani::cover!(c == 2 && x == -2048);
}

//@ ict_inverse: bounded(one sample, one channel at a time, every 12-bit value) | fns=opj_mct_decode_real | what=each transformed channel contributes to each output with G.3.2's coefficient
#[kani::proof]
fn ict_inverse() {
    let (mut v, x, c) = lone();
    let [ref mut y, ref mut u, ref mut w] = v;
    unsafe { opj_mct_decode_real(y, u, w, 1) };
    let m: [[i64; 3]; 3] = [[100000, 0, 140200], [100000, -34413, -71414], [100000, 177200, 0]];
    assert!(near(v[0], m[0][c] * x, 100000));
    assert!(near(v[1], m[1][c] * x, 100000));
    assert!(near(v[2], m[2][c] * x, 100000));
    kani::cover!(c == 1 && x == 2047);
}

//@ ict_count: bounded(up to 3 samples) | fns=opj_mct_encode_real,opj_mct_decode_real | what=exactly the given number of samples is transformed
#[kani::proof]
#[kani::unwind(5)]
fn ict_count() {
    let n: usize = kani::any();
    kani::assume(n <= N);
    let fwd: bool = kani::any();
    let (mut a, mut b, mut c) = ([64f32; N], [128f32; N], [256f32; N]);
    unsafe {
        if fwd { opj_mct_encode_real(a.as_mut_ptr(), b.as_mut_ptr(), c.as_mut_ptr(), n) }
        else { opj_mct_decode_real(a.as_mut_ptr(), b.as_mut_ptr(), c.as_mut_ptr(), n) }
    }
    let mut i = 0;
    while i < N {
        if i < n { assert!(a[i] == a[0] && b[i] == b[0] && c[i] == c[0] && a[i] != 64.0 && b[i] != 128.0 && c[i] != 256.0); }
        else { assert!(a[i] == 64.0 && b[i] == 128.0 && c[i] == 256.0); }
        i += 1;
    }
    kani::cover!(n == 2 && fwd);
    kani::cover!(n == 3 && !fwd);
}

//@ custom_forward: bounded(2 components, 2 samples, matrix entries multiples of 1/8 below 4, samples of 12 bits) | fns=opj_mct_encode_custom,opj_int_fix_mul | what=each output component is the matrix row applied to the input components, rounded per product; the sample pointers advance together
#[kani::proof]
#[kani::unwind(6)]
fn custom_forward() {
    let mut m = [0f32; 4];
    let mut q = [0i32; 4];
    let mut i = 0;
    while i < 4 {
        let k: i8 = kani::any();
        kani::assume(k > -32 && k < 32);
        q[i] = k as i32;
        m[i] = k as f32 / 8.0;
        i += 1;
    }
    let mut a = [0i32; 3];
    let mut b = [0i32; 3];
    i = 0;
    while i < 3 {
        a[i] = kani::any();
        b[i] = kani::any();
        kani::assume(a[i] >= -2048 && a[i] < 2048 && b[i] >= -2048 && b[i] < 2048);
        i += 1;
    }
    let (a0, b0) = (a, b);
    let mut d = [a.as_mut_ptr() as *mut u8, b.as_mut_ptr() as *mut u8];
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let ok = unsafe { opj_mct_encode_custom(m.as_mut_ptr() as *mut u8, n, d.as_mut_ptr(), 2, 0) };
    let round = |k: i32, x: i32| (k * x + 4).div_euclid(8);     // k/8 * x, halves up
    i = 0;
    while i < 3 {
        if ok != 0 && i < n {
            assert!(a[i] == round(q[0], a0[i]) + round(q[1], b0[i]));
            assert!(b[i] == round(q[2], a0[i]) + round(q[3], b0[i]));
        } else {
            assert!(a[i] == a0[i] && b[i] == b0[i]);
        }
        i += 1;
    }
    kani::cover!(ok != 0 && n == 2 && q[1] == -3 && b0[1] == 5);
}

//@ custom_inverse: bounded(2 components, 2 samples, small integral matrices and samples, where single precision is exact) | fns=opj_mct_decode_custom | what=each output component is the matrix row applied to the input components
#[kani::proof]
#[kani::unwind(8)]
fn custom_inverse() {
    let mut m = [0f32; 4];
    let mut q = [0i32; 4];
    let mut i = 0;
    while i < 4 {
        let k: i8 = kani::any();
        kani::assume(k >= -4 && k < 4);
        q[i] = k as i32;
        m[i] = k as f32;
        i += 1;
    }
    let mut v = [[0i32; 3]; 2];
    let mut f = [[0f32; 3]; 2];
    i = 0;
    while i < 6 {
        let k: i8 = kani::any();
        kani::assume(k >= -8 && k < 8);
        v[i / 3][i % 3] = k as i32;
        f[i / 3][i % 3] = k as f32;
        i += 1;
    }
    let (a, b) = f.split_at_mut(1);
    let mut d = [a[0].as_mut_ptr() as *mut u8, b[0].as_mut_ptr() as *mut u8];
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let ok = unsafe { opj_mct_decode_custom(m.as_mut_ptr() as *mut u8, n, d.as_mut_ptr(), 2, 0) };
    i = 0;
    while i < 3 {
        if ok != 0 && i < n {
            assert!(f[0][i] == (q[0] * v[0][i] + q[1] * v[1][i]) as f32);
            assert!(f[1][i] == (q[2] * v[0][i] + q[3] * v[1][i]) as f32);
        } else {
            assert!(f[0][i] == v[0][i] as f32 && f[1][i] == v[1][i] as f32);
        }
        i += 1;
    }
    kani::cover!(ok != 0 && n == 2 && q[1] == -3 && v[1][1] == 5);
}
