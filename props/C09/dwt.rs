// Contracts of the reversible wavelet transform (ISO/IEC 15444-1 Annex F, 5-3 filter).
use std::ptr::{addr_of_mut, null_mut};
fn z<T>() -> T { unsafe { core::mem::zeroed() } }
const L: usize = 7;

fn small() -> i32 {
    let v: i32 = kani::any();
    kani::assume(v >= -(1 << 27) && v < (1 << 27));
    v
}

/// Index of the symmetric extension (F.3.7).
fn ext(i: i32, n: i32) -> usize {
    let p = 2 * (n - 1);
    let m = i.rem_euclid(p);
    (if m < n { m } else { p - m }) as usize
}

/// F.4.8.1 on `n` samples whose first has coordinate of parity `cas`; the result is interleaved.
fn spec_forward(x: &[i32; L], n: usize, cas: i32) -> [i32; L] {
    let mut y = *x;
    if n == 1 {
        if cas == 1 { y[0] = 2 * x[0]; }
        return y;
    }
    let mut i = 0;
    while i < n {
        if (i as i32 + cas) % 2 == 1 {
            y[i] = x[i] - ((x[ext(i as i32 - 1, n as i32)] + x[ext(i as i32 + 1, n as i32)]) >> 1);
        }
        i += 1;
    }
    i = 0;
    while i < n {
        if (i as i32 + cas) % 2 == 0 {
            y[i] = x[i] + ((y[ext(i as i32 - 1, n as i32)] + y[ext(i as i32 + 1, n as i32)] + 2) >> 2);
        }
        i += 1;
    }
    y
}

/// F.3.8.1: the inverse.
fn spec_inverse(y: &[i32; L], n: usize, cas: i32) -> [i32; L] {
    let mut x = *y;
    if n == 1 {
        if cas == 1 { x[0] = y[0] / 2; }
        return x;
    }
    let mut i = 0;
    while i < n {
        if (i as i32 + cas) % 2 == 0 {
            x[i] = y[i] - ((y[ext(i as i32 - 1, n as i32)] + y[ext(i as i32 + 1, n as i32)] + 2) >> 2);
        }
        i += 1;
    }
    i = 0;
    while i < n {
        if (i as i32 + cas) % 2 == 1 {
            x[i] = y[i] + ((x[ext(i as i32 - 1, n as i32)] + x[ext(i as i32 + 1, n as i32)]) >> 1);
        }
        i += 1;
    }
    x
}

fn low(n: usize, cas: i32) -> usize { if cas == 0 { (n + 1) / 2 } else { n / 2 } }

/// Position of interleaved sample `i` once the bands are apart.
fn place(i: usize, n: usize, cas: i32) -> usize {
    if (i as i32 + cas) % 2 == 0 { (i - cas as usize) / 2 } else { low(n, cas) + i / 2 }
}

fn row_forward(n: usize, cas: i32) {
    let mut buf: [i32; L + 2] = z();
    let mut x: [i32; L] = z();
    let mut i = 0;
    while i < n { x[i] = small(); buf[1 + i] = x[i]; i += 1; }
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    buf[0] = a;
    buf[1 + n] = b;
    let mut tmp: [i32; L] = kani::any();
    unsafe { opj_dwt_encode_and_deinterleave_h_one_row(addr_of_mut!(buf[1]) as *mut _, tmp.as_mut_ptr() as *mut _, n as u32, (cas == 0) as i32) };
    let y = spec_forward(&x, n, cas);
    i = 0;
    while i < n { assert!(buf[1 + place(i, n, cas)] == y[i]); i += 1; }
    assert!(buf[0] == a && buf[1 + n] == b);
    kani::cover!(x[0] == -9);
}

//@ forward_row: bounded(1 to 7 samples, both parities) | fns=opj_dwt_encode_and_deinterleave_h_one_row | what=the forward horizontal transform is F.4.8's with symmetric extension, low band first; nothing outside the row is written
#[kani::proof]
#[kani::unwind(10)]
fn forward_row() {
    let mut n = 1;
    while n <= L { row_forward(n, 0); row_forward(n, 1); n += 1; }
}

fn row_inverse(n: usize, cas: i32) {
    let mut buf: [i32; L + 2] = z();
    let mut y: [i32; L] = z();
    let mut i = 0;
    while i < n { y[i] = small(); i += 1; }
    i = 0;
    while i < n { buf[1 + place(i, n, cas)] = y[i]; i += 1; }
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    buf[0] = a;
    buf[1 + n] = b;
    let mut mem: [i32; 2 * L] = kani::any();     // room as for the vertical pass
    let sn = low(n, cas) as i32;
    let mut d = opj_dwt_t { mem: mem.as_mut_ptr(), dn: n as i32 - sn, sn, cas };
    unsafe { opj_idwt53_h(&mut d, addr_of_mut!(buf[1])) };
    let x = spec_inverse(&y, n, cas);
    i = 0;
    while i < n { assert!(buf[1 + i] == x[i]); i += 1; }
    assert!(buf[0] == a && buf[1 + n] == b);
    kani::cover!(y[0] == -9);
}

//@ inverse_row: bounded(1 to 7 samples, both parities) | fns=opj_idwt53_h,dwt_local::decode_1,opj_dwt_interleave_h | what=the inverse horizontal transform is F.3.8's with symmetric extension, for every pair of bands; nothing outside the row is written
#[kani::proof]
#[kani::unwind(10)]
fn inverse_row() {
    let mut n = 1;
    while n <= L { row_inverse(n, 0); row_inverse(n, 1); n += 1; }
}

fn row_both(n: usize, cas: i32) {
    let mut buf: [i32; L] = z();
    let mut i = 0;
    while i < n { buf[i] = small(); i += 1; }
    let x = buf;
    let mut mem: [i32; 2 * L] = z();
    unsafe { opj_dwt_encode_and_deinterleave_h_one_row(buf.as_mut_ptr() as *mut _, mem.as_mut_ptr() as *mut _, n as u32, (cas == 0) as i32) };
    let sn = low(n, cas) as i32;
    let mut d = opj_dwt_t { mem: mem.as_mut_ptr(), dn: n as i32 - sn, sn, cas };
    unsafe { opj_idwt53_h(&mut d, buf.as_mut_ptr()) };
    i = 0;
    while i < n { assert!(buf[i] == x[i]); i += 1; }
    kani::cover!(x[0] == -9);
}

//@ lossless_row: bounded(1 to 7 samples, both parities) | fns=opj_dwt_encode_and_deinterleave_h_one_row,opj_idwt53_h | what=forward then inverse gives back every row
#[kani::proof]
#[kani::unwind(10)]
fn lossless_row() {
    let mut n = 1;
    while n <= L { row_both(n, 0); row_both(n, 1); n += 1; }
}

const W: usize = 9;
const H: usize = 5;

/// Columns agree with the row transform applied down them.
fn cols_forward(n: usize, cas: i32, cols: usize) {
    let mut buf: [i32; W * (H + 1)] = z();        // the code may form addresses one row on
    let mut i = 0;
    while i < W * n { buf[i] = small(); i += 1; }
    let old = buf;
    let mut tmp: [i32; 8 * (H + 2)] = z();
    unsafe { opj_dwt_encode_and_deinterleave_v(buf.as_mut_ptr() as *mut _, tmp.as_mut_ptr() as *mut _, n as u32, (cas == 0) as i32, W as u32, cols as u32) };
    let mut c = 0;
    while c < W {
        let mut x: [i32; L] = z();
        i = 0;
        while i < n { x[i] = old[i * W + c]; i += 1; }
        let y = spec_forward(&x, n, cas);
        i = 0;
        while i < n {
            if c < cols { assert!(buf[place(i, n, cas) * W + c] == y[i]); } else { assert!(buf[i * W + c] == x[i]); }
            i += 1;
        }
        c += 1;
    }
    kani::cover!(old[0] == -9);
}

//@ forward_columns: bounded(1 to 5 rows, both parities, 1 or 2 of 9 columns) | fns=opj_dwt_encode_and_deinterleave_v,opj_dwt_fetch_cols_vertical_pass,opj_dwt_deinterleave_v_cols | what=the forward vertical transform is F.4.8's down each column given, low band on top; other columns stay
#[kani::proof]
#[kani::unwind(50)]
fn forward_columns() {
    let mut n = 1;
    while n <= 4 { cols_forward(n, 0, 1); cols_forward(n, 1, 1); n += 1; }
    cols_forward(5, 0, 1);
    cols_forward(5, 1, 2);
}

//@ forward_eight: bounded(3 rows, both parities, 8 of 9 columns) | fns=opj_dwt_encode_and_deinterleave_v,opj_dwt_fetch_cols_vertical_pass,opj_dwt_deinterleave_v_cols | what=the same for a full group of eight columns
#[kani::proof]
#[kani::unwind(50)]
fn forward_eight() {
    cols_forward(3, 0, 8);
    cols_forward(3, 1, 8);
}

fn cols_inverse(n: usize, cas: i32, cols: usize) {
    let mut buf: [i32; W * (H + 1)] = z();        // the code may form addresses one row on
    let mut i = 0;
    while i < W * n { buf[i] = small(); i += 1; }
    let old = buf;
    let mut mem: [i32; 8 * H] = z();
    let sn = low(n, cas) as i32;
    let mut d = opj_dwt_t { mem: mem.as_mut_ptr(), dn: n as i32 - sn, sn, cas };
    unsafe { opj_idwt53_v(&mut d, buf.as_mut_ptr(), W, cols as i32) };
    let mut c = 0;
    while c < W {
        let mut y: [i32; L] = z();
        i = 0;
        while i < n { y[i] = old[place(i, n, cas) * W + c]; i += 1; }
        let x = spec_inverse(&y, n, cas);
        i = 0;
        while i < n {
            if c < cols { assert!(buf[i * W + c] == x[i]); } else { assert!(buf[i * W + c] == old[i * W + c]); }
            i += 1;
        }
        c += 1;
    }
    kani::cover!(old[0] == -9);
}

//@ inverse_columns: bounded(1 to 5 rows, both parities, 1 or 2 of 9 columns) | fns=opj_idwt53_v,dwt_local::decode_1,opj_dwt_interleave_v | what=the inverse vertical transform is F.3.8's down each column given; other columns stay
#[kani::proof]
#[kani::unwind(50)]
fn inverse_columns() {
    let mut n = 1;
    while n <= 4 { cols_inverse(n, 0, 1); cols_inverse(n, 1, 1); n += 1; }
    cols_inverse(5, 0, 1);
    cols_inverse(5, 1, 2);
}

//@ inverse_eight: bounded(3 rows, both parities, 8 of 9 columns) | fns=opj_idwt53_v,dwt_local::decode_1,opj_dwt_interleave_v | what=the same for a full group of eight columns
#[kani::proof]
#[kani::unwind(50)]
fn inverse_eight() {
    cols_inverse(3, 0, 8);
    cols_inverse(3, 1, 8);
}

/// Decoding only the window `[a, b)` of a row, of which only the bands near the window hold data.
fn partial(n: usize, cas: i32, a: usize, b: usize) {
    let mut full: [i32; L] = z();
    let mut i = 0;
    while i < n { full[i] = small(); i += 1; }
    let want = spec_inverse(&full, n, cas);
    let sn = low(n, cas) as i32;
    let dn = n as i32 - sn;
    let c = cas as usize;
    // the window in each band (B-15), grown by the filter's reach
    let (mut l0, mut l1) = (((a + c + 1) / 2 - c) as u32, ((b + c + 1) / 2 - c) as u32);
    let (mut h0, mut h1) = (((a + c) / 2) as u32, ((b + c) / 2) as u32);
    unsafe {
        opj_dwt_segment_grow(2, sn as u32, &mut l0, &mut l1);
        opj_dwt_segment_grow(2, dn as u32, &mut h0, &mut h1);
    }
    let junk = small();
    let mut mem: [i32; L] = [junk; L];
    let mut par: [i32; 4 * L] = [junk; 4 * L];
    i = 0;
    while i < n {
        let is_low = (i + c) % 2 == 0;
        let k = if is_low { (i - c) / 2 } else { i / 2 } as u32;
        if if is_low { k >= l0 && k < l1 } else { k >= h0 && k < h1 } {
            mem[i] = full[i];
            par[4 * i] = full[i];
            par[4 * i + 3] = full[i];
        } else {
            assert!(i < a || i >= b);
        }
        i += 1;
    }
    let mut d = opj_dwt_t { mem: mem.as_mut_ptr(), dn, sn, cas };
    d.decode_partial_1(l0 as i32, l1 as i32, h0 as i32, h1 as i32);
    let mut p = opj_dwt_t { mem: par.as_mut_ptr(), dn, sn, cas };
    p.decode_partial_1_parallel(l0 as i32, l1 as i32, h0 as i32, h1 as i32);
    i = a;
    while i < b {
        assert!(mem[i] == want[i]);
        assert!(par[4 * i] == want[i] && par[4 * i + 3] == want[i]);
        i += 1;
    }
    kani::cover!(full[a] == -9);
}

fn partials(n: usize, cas: i32) {
    let mut a = 0;
    while a < n {
        let mut b = a + 1;
        while b <= n { partial(n, cas, a, b); b += 1; }
        a += 1;
    }
}

//@ partial_short: bounded(rows of 1 to 3 samples, every window, both parities) | fns=dwt_local::decode_partial_1,dwt_local::decode_partial_1_parallel,opj_dwt_segment_grow | what=inside its window a partial inverse transform, one row or four columns at once, gives what the whole one gives, whatever lies outside the grown bands
#[kani::proof]
#[kani::unwind(30)]
fn partial_short() {
    let mut n = 1;
    while n <= 3 { partials(n, 0); partials(n, 1); n += 1; }
}

//@ partial_four: bounded(rows of 4 samples, every window) | fns=dwt_local::decode_partial_1,dwt_local::decode_partial_1_parallel,opj_dwt_segment_grow | what=the same for rows of four samples
#[kani::proof]
#[kani::unwind(30)]
fn partial_four() { partials(4, 0); }

//@ partial_four_odd: bounded(rows of 4 samples, every window) | fns=dwt_local::decode_partial_1,dwt_local::decode_partial_1_parallel,opj_dwt_segment_grow | what=the same for rows of four samples from an odd coordinate
#[kani::proof]
#[kani::unwind(30)]
fn partial_four_odd() { partials(4, 1); }

//@ partial_long: bounded(rows of 7 samples, windows of one sample and of three in the middle) | fns=dwt_local::decode_partial_1,dwt_local::decode_partial_1_parallel,opj_dwt_segment_grow | what=the same where the window's reach ends inside the row
#[kani::proof]
#[kani::unwind(30)]
fn partial_long() {
    partial(7, 0, 0, 1);
    partial(7, 0, 6, 7);
    partial(7, 0, 3, 4);
    partial(7, 0, 2, 5);
    partial(7, 1, 0, 1);
    partial(7, 1, 6, 7);
    partial(7, 1, 3, 4);
    partial(7, 1, 2, 5);
}

// ---- whole tiles

const SLACK: usize = 128;        // the code forms addresses past the end, but must not use them
static mut SIZE: usize = 0;
static mut MEM: *mut u8 = null_mut();
unsafe fn alloc(size: size_t) -> *mut core::ffi::c_void {
    if size == 0 { return null_mut(); }
    SIZE = size;
    MEM = opj_calloc(1, size + SLACK) as *mut u8;
    MEM as *mut _
}
unsafe fn release(p: *mut core::ffi::c_void) {
    if p.is_null() { return; }
    assert!(p as *mut u8 == MEM);
    let mut i = 0;
    while i < SLACK / 4 {
        assert!(*(MEM.add(SIZE) as *mut u32).add(i) == 0);
        i += 1;
    }
}
const N: usize = 16;
struct Tile {
    tc: opj_tcd_tilecomp_t,
    tcd: opj_tcd_t,
    res: [opj_tcd_resolution_t; 4],
    data: [i32; 2 * N],
}
impl Tile {
    fn new() -> Tile { Tile { tc: z(), tcd: z(), res: z(), data: z() } }
    unsafe fn wire(&mut self, x0: i32, y0: i32, x1: i32, y1: i32, nres: u32) {
        self.tcd.whole_tile_decoding = 1;
        self.tc.x0 = x0;
        self.tc.x1 = x1;
        self.tc.y0 = y0;
        self.tc.y1 = y1;
        self.tc.numresolutions = nres;
        self.tc.minimum_num_resolutions = nres;
        self.tc.resolutions = self.res.as_mut_ptr();
        self.tc.data = self.data.as_mut_ptr();
        let mut r = nres as usize;
        let (mut a, mut b, mut c, mut d) = (x0, y0, x1, y1);
        while r > 0 {
            r -= 1;
            self.res[r].x0 = a;
            self.res[r].y0 = b;
            self.res[r].x1 = c;
            self.res[r].y1 = d;
            a = (a + 1) / 2;
            b = (b + 1) / 2;
            c = (c + 1) / 2;
            d = (d + 1) / 2;
        }
    }
}

unsafe fn tile_both(x0: i32, y0: i32, x1: i32, y1: i32, nres: u32) {
    let mut t = Tile::new();
    t.wire(x0, y0, x1, y1, nres);
    let n = ((x1 - x0) * (y1 - y0)) as usize;
    let mut i = 0;
    while i < n { t.data[i] = small(); i += 1; }
    let x = t.data;
    assert!(opj_dwt_encode(&mut t.tc) == 1);
    // each component has its own scratch memory
    assert!(opj_dwt_decode(&mut t.tcd, &mut t.tc, nres) == 1);
    i = 0;
    while i < 2 * N { assert!(t.data[i] == x[i]); i += 1; }
    kani::cover!(x[0] == -9);
}

// Stand-ins for the row and column transforms: as reversible as those, and not commuting.
unsafe fn mix_row(v: i32, i: usize) -> i32 { v.rotate_left(1) ^ (i as i32 + 1) }
unsafe fn unmix_row(v: i32, i: usize) -> i32 { (v ^ (i as i32 + 1)).rotate_right(1) }
unsafe extern "C" fn any_row(row: *mut core::ffi::c_void, tmp: *mut core::ffi::c_void, width: u32, even: i32) {
    let (row, n, cas) = (row as *mut i32, width as usize, (even == 0) as i32);
    assert!(n >= 1 && tmp as *mut u8 == MEM && SIZE >= 4 * n);
    let mut b: [i32; N] = z();
    let mut i = 0;
    while i < n { b[i] = *row.add(i); i += 1; }
    i = 0;
    while i < n { *row.add(place(i, n, cas)) = mix_row(b[i], i); i += 1; }
}
unsafe fn any_row_back(d: &mut opj_dwt_t, row: *mut i32) {
    let n = (d.sn + d.dn) as usize;
    assert!(d.mem as *mut u8 == MEM && SIZE >= 4 * n);
    assert!(n == 0 || d.sn as usize == low(n, d.cas));
    let mut b: [i32; N] = z();
    let mut i = 0;
    while i < n { b[i] = *row.add(i); i += 1; }
    i = 0;
    while i < n { *row.add(i) = unmix_row(b[place(i, n, d.cas)], i); i += 1; }
}
unsafe extern "C" fn any_cols(data: *mut core::ffi::c_void, tmp: *mut core::ffi::c_void, height: u32, even: i32, stride: u32, cols: u32) {
    let (data, n, cas) = (data as *mut i32, height as usize, (even == 0) as i32);
    assert!(n >= 1 && tmp as *mut u8 == MEM && SIZE >= 32 * n && cols <= 8);
    let mut c = 0;
    while c < cols as usize {
        let mut b: [i32; N] = z();
        let mut i = 0;
        while i < n { b[i] = *data.add(i * stride as usize + c); i += 1; }
        i = 0;
        while i < n { *data.add(place(i, n, cas) * stride as usize + c) = b[i].wrapping_add(3 * i as i32 + 1); i += 1; }
        c += 1;
    }
}
unsafe fn any_cols_back(d: &mut opj_dwt_t, data: *mut i32, stride: usize, cols: i32) {
    let n = (d.sn + d.dn) as usize;
    assert!(d.mem as *mut u8 == MEM && SIZE >= 32 * n && cols <= 8);
    assert!(n == 0 || d.sn as usize == low(n, d.cas));
    let mut c = 0;
    while c < cols as usize {
        let mut b: [i32; N] = z();
        let mut i = 0;
        while i < n { b[i] = *data.add(i * stride + c); i += 1; }
        i = 0;
        while i < n { *data.add(i * stride + c) = b[place(i, n, d.cas)].wrapping_sub(3 * i as i32 + 1); i += 1; }
        c += 1;
    }
}

//@ lossless_tile: bounded(tiles of up to 30 samples with origins 0 to 5, up to 3 decompositions) | fns=opj_dwt_encode,opj_dwt_encode_procedure,opj_dwt_decode,opj_dwt_decode_tile | what=over all levels the inverse undoes, in reverse order and with the same geometry, each row and column transform of the forward one, whatever the parities of the corners, also where lower resolutions are empty; the scratch memory suffices
#[kani::proof]
#[kani::unwind(40)]
#[kanitool::stub(opj_aligned_32_malloc, alloc)]
#[kanitool::stub(opj_aligned_free, release)]
#[kanitool::stub(opj_dwt_encode_and_deinterleave_h_one_row, any_row)]
#[kanitool::stub(opj_dwt_encode_and_deinterleave_v, any_cols)]
#[kanitool::stub(opj_idwt53_h, any_row_back)]
#[kanitool::stub(opj_idwt53_v, any_cols_back)]
fn lossless_tile() {
    unsafe {
        tile_both(0, 0, 4, 4, 3);
        tile_both(1, 1, 4, 3, 3);
        tile_both(2, 1, 4, 4, 2);
        tile_both(0, 3, 3, 5, 4);
        tile_both(1, 5, 11, 8, 2);
        tile_both(3, 0, 12, 2, 3);
        tile_both(5, 1, 6, 6, 4);
        tile_both(0, 0, 5, 3, 1);
    }
}

//@ lossless_thin: bounded(tiles of one row or column of up to 4 samples with origins 0 to 5, up to 3 decompositions) | fns=opj_dwt_encode,opj_dwt_encode_procedure,opj_dwt_decode,opj_dwt_decode_tile | what=the same for tiles one sample wide or high, whose lower resolutions may be empty
#[kani::proof]
#[kani::unwind(35)]
#[kanitool::stub(opj_aligned_32_malloc, alloc)]
#[kanitool::stub(opj_aligned_free, release)]
fn lossless_thin() {
    unsafe {
        tile_both(1, 0, 2, 3, 4);
        tile_both(5, 1, 6, 4, 4);
        tile_both(0, 1, 4, 2, 3);
        tile_both(3, 3, 4, 4, 4);
        tile_both(2, 5, 3, 6, 3);
        tile_both(0, 0, 1, 4, 1);
    }
}

// ---- windows of tiles

// The sparse array by its contract (C15): a plane of zeros until written.
const P: usize = 8;
static mut PLANE: [i32; P * P] = [0; P * P];
static mut PW: u32 = 0;
static mut PH: u32 = 0;
static mut SA: opj_sparse_array_int32_t = unsafe { core::mem::zeroed() };
unsafe fn sa_create(w: u32, h: u32, bw: u32, bh: u32) -> *mut opj_sparse_array_int32_t {
    assert!(w >= 1 && h >= 1 && bw >= 1 && bh >= 1);
    PW = w;
    PH = h;
    PLANE = [0; P * P];
    addr_of_mut!(SA)
}
unsafe fn sa_free(_: *mut opj_sparse_array_int32_t) {}
unsafe fn sa_read(_: *const opj_sparse_array_int32_t, x0: u32, y0: u32, x1: u32, y1: u32, dest: *mut i32, cs: u32, ls: u32, forgiving: i32) -> i32 {
    if x0 >= x1 || y0 >= y1 || x1 > PW || y1 > PH { return forgiving; }
    let mut y = y0;
    while y < y1 {
        let mut x = x0;
        while x < x1 {
            *dest.add(((y - y0) * ls + (x - x0) * cs) as usize) = PLANE[y as usize * P + x as usize];
            x += 1;
        }
        y += 1;
    }
    1
}
unsafe fn sa_write(_: *mut opj_sparse_array_int32_t, x0: u32, y0: u32, x1: u32, y1: u32, src: *const i32, cs: u32, ls: u32, forgiving: i32) -> i32 {
    if x0 >= x1 || y0 >= y1 || x1 > PW || y1 > PH { return forgiving; }
    let mut y = y0;
    while y < y1 {
        let mut x = x0;
        while x < x1 {
            PLANE[y as usize * P + x as usize] = *src.add(((y - y0) * ls + (x - x0) * cs) as usize);
            x += 1;
        }
        y += 1;
    }
    1
}

struct Win {
    t: Tile,
    prec: [opj_tcd_precinct_t; 12],
    cblk: [opj_tcd_cblk_dec_t; 12],
    coef: [[i32; N]; 12],
    out: [i32; N],
}

/// The window (wx0, wy0)-(wx1, wy1) of a tile with one code-block per band, all of it coded.
unsafe fn window(x0: i32, y0: i32, x1: i32, y1: i32, nres: u32, wx0: i32, wy0: i32, wx1: i32, wy1: i32) {
    let mut s = Win { t: Tile::new(), prec: z(), cblk: z(), coef: z(), out: z() };
    s.t.wire(x0, y0, x1, y1, nres);
    s.t.tcd.whole_tile_decoding = 0;
    // the plane as the bands lie in it
    let mut plane: [[i32; L]; L] = z();
    let mut r = 0;
    while r < nres as usize {
        let nb = if r == 0 { 1 } else { 3 };
        s.t.res[r].numbands = nb as u32;
        s.t.res[r].pw = 1;
        s.t.res[r].ph = 1;
        let mut b = 0;
        while b < nb {
            let o = if r == 0 { 0 } else { b as i32 + 1 };
            let k = if r == 0 { 0 } else { 3 * r - 2 + b };
            let res = s.t.res[r];
            let band = addr_of_mut!(s.t.res[r].bands[b]);
            (*band).bandno = o as u32;
            // for r > 0 the bands split this resolution's samples by the parity of their coordinates
            if r == 0 {
                (*band).x0 = res.x0; (*band).x1 = res.x1; (*band).y0 = res.y0; (*band).y1 = res.y1;
            } else {
                let (ox, oy) = (o & 1, o >> 1);
                (*band).x0 = (res.x0 - ox + 1) / 2;
                (*band).x1 = (res.x1 - ox + 1) / 2;
                (*band).y0 = (res.y0 - oy + 1) / 2;
                (*band).y1 = (res.y1 - oy + 1) / 2;
            }
            (*band).precincts = addr_of_mut!(s.prec[k]);
            s.prec[k].cw = 1;
            s.prec[k].ch = 1;
            s.prec[k].cblks.dec = addr_of_mut!(s.cblk[k]);
            s.cblk[k].x0 = (*band).x0;
            s.cblk[k].x1 = (*band).x1;
            s.cblk[k].y0 = (*band).y0;
            s.cblk[k].y1 = (*band).y1;
            let (w, h) = (((*band).x1 - (*band).x0) as usize, ((*band).y1 - (*band).y0) as usize);
            if w > 0 && h > 0 {
                s.cblk[k].decoded_data = s.coef[k].as_mut_ptr();
                let px = if o & 1 != 0 { (s.t.res[r - 1].x1 - s.t.res[r - 1].x0) as usize } else { 0 };
                let py = if o & 2 != 0 { (s.t.res[r - 1].y1 - s.t.res[r - 1].y0) as usize } else { 0 };
                let mut y = 0;
                while y < h {
                    let mut x = 0;
                    while x < w {
                        let v = small();
                        s.coef[k][y * w + x] = v;
                        plane[py + y][px + x] = v;
                        x += 1;
                    }
                    y += 1;
                }
            }
            b += 1;
        }
        r += 1;
    }
    s.t.tc.win_x0 = wx0 as u32;
    s.t.tc.win_x1 = wx1 as u32;
    s.t.tc.win_y0 = wy0 as u32;
    s.t.tc.win_y1 = wy1 as u32;
    let top = addr_of_mut!(s.t.res[nres as usize - 1]);
    (*top).win_x0 = wx0 as u32;
    (*top).win_x1 = wx1 as u32;
    (*top).win_y0 = wy0 as u32;
    (*top).win_y1 = wy1 as u32;
    s.t.tc.data_win = s.out.as_mut_ptr();
    assert!(opj_dwt_decode(&mut s.t.tcd, &mut s.t.tc, nres) == 1);
    // the whole tile, by the formulas
    r = 1;
    while r < nres as usize {
        let res = s.t.res[r];
        let (w, h) = ((res.x1 - res.x0) as usize, (res.y1 - res.y0) as usize);
        let (cx, cy) = (res.x0 & 1, res.y0 & 1);
        let mut y = 0;
        while y < h {
            let mut line: [i32; L] = z();
            let mut x = 0;
            while x < w { line[x] = plane[y][place(x, w, cx)]; x += 1; }
            let line = spec_inverse(&line, w, cx);
            x = 0;
            while x < w { plane[y][x] = line[x]; x += 1; }
            y += 1;
        }
        let mut x = 0;
        while x < w {
            let mut line: [i32; L] = z();
            y = 0;
            while y < h { line[y] = plane[place(y, h, cy)][x]; y += 1; }
            let line = spec_inverse(&line, h, cy);
            y = 0;
            while y < h { plane[y][x] = line[y]; y += 1; }
            x += 1;
        }
        r += 1;
    }
    let (w, h) = ((wx1 - wx0) as usize, (wy1 - wy0) as usize);
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            assert!(s.out[y * w + x] == plane[(wy0 - y0) as usize + y][(wx0 - x0) as usize + x]);
            x += 1;
        }
        y += 1;
    }
    kani::cover!(s.coef[0][0] == -9);
}

//@ window_rows: bounded(tiles of 7 by 1 samples, 1 decomposition, windows of 1 to 3 samples) | fns=opj_dwt_decode_partial_tile,opj_dwt_init_sparse_array,opj_dwt_interleave_partial_h,opj_dwt_get_band_coordinates | what=decoding a window gives the samples the whole tile has there
#[kani::proof]
#[kani::unwind(70)]
#[kanitool::stub(opj_aligned_32_malloc, alloc)]
#[kanitool::stub(opj_aligned_free, release)]
#[kanitool::stub(opj_sparse_array_int32_create, sa_create)]
#[kanitool::stub(opj_sparse_array_int32_free, sa_free)]
#[kanitool::stub(opj_sparse_array_int32_read, sa_read)]
#[kanitool::stub(opj_sparse_array_int32_write, sa_write)]
fn window_rows() {
    unsafe {
        window(0, 0, 7, 1, 2, 3, 0, 4, 1);
        window(3, 2, 10, 3, 2, 5, 2, 8, 3);
    }
}

//@ window_columns: bounded(tiles of 1 by 7 samples, 1 decomposition, windows of 1 to 3 samples) | fns=opj_dwt_decode_partial_tile,opj_dwt_init_sparse_array,opj_dwt_interleave_partial_h,opj_dwt_interleave_partial_v,opj_dwt_get_band_coordinates | what=the same down a column
#[kani::proof]
#[kani::unwind(70)]
#[kanitool::stub(opj_aligned_32_malloc, alloc)]
#[kanitool::stub(opj_aligned_free, release)]
#[kanitool::stub(opj_sparse_array_int32_create, sa_create)]
#[kanitool::stub(opj_sparse_array_int32_free, sa_free)]
#[kanitool::stub(opj_sparse_array_int32_read, sa_read)]
#[kanitool::stub(opj_sparse_array_int32_write, sa_write)]
fn window_columns() {
    unsafe {
        window(0, 0, 1, 7, 2, 0, 3, 1, 4);
        window(2, 3, 3, 10, 2, 2, 5, 3, 8);
    }
}

//@ window_area: bounded(tiles of 4 by 3 and 3 by 4 samples, 1 decomposition) | fns=opj_dwt_decode_partial_tile,opj_dwt_init_sparse_array,opj_dwt_interleave_partial_h,opj_dwt_interleave_partial_v,opj_dwt_get_band_coordinates | what=the same for windows of a tile with several rows and columns
#[kani::proof]
#[kani::unwind(70)]
#[kanitool::stub(opj_aligned_32_malloc, alloc)]
#[kanitool::stub(opj_aligned_free, release)]
#[kanitool::stub(opj_sparse_array_int32_create, sa_create)]
#[kanitool::stub(opj_sparse_array_int32_free, sa_free)]
#[kanitool::stub(opj_sparse_array_int32_read, sa_read)]
#[kanitool::stub(opj_sparse_array_int32_write, sa_write)]
fn window_area() {
    unsafe {
        window(0, 1, 4, 4, 2, 1, 2, 3, 3);
        window(1, 2, 4, 6, 2, 2, 3, 4, 6);
    }
}

//@ window_levels: bounded(tiles of 5 by 2 and 7 by 1 samples, 2 decompositions, and of 4 by 2, none) | fns=opj_dwt_decode_partial_tile,opj_dwt_init_sparse_array,opj_dwt_interleave_partial_h,opj_dwt_interleave_partial_v,opj_dwt_get_band_coordinates | what=the same over several levels, and where there is none
#[kani::proof]
#[kani::unwind(70)]
#[kanitool::stub(opj_aligned_32_malloc, alloc)]
#[kanitool::stub(opj_aligned_free, release)]
#[kanitool::stub(opj_sparse_array_int32_create, sa_create)]
#[kanitool::stub(opj_sparse_array_int32_free, sa_free)]
#[kanitool::stub(opj_sparse_array_int32_read, sa_read)]
#[kanitool::stub(opj_sparse_array_int32_write, sa_write)]
fn window_levels() {
    unsafe {
        window(1, 1, 6, 3, 3, 4, 1, 5, 2);
        window(0, 0, 7, 1, 3, 5, 0, 6, 1);
        window(0, 0, 4, 2, 1, 1, 1, 3, 2);
    }
}

static mut WROTE: [[u32; 6]; 16] = [[0; 6]; 16];
static mut WROTE_N: usize = 0;
unsafe fn sa_note(_: *mut opj_sparse_array_int32_t, x0: u32, y0: u32, x1: u32, y1: u32, src: *const i32, cs: u32, ls: u32, forgiving: i32) -> i32 {
    assert!(cs == 1 && WROTE_N < 16);
    WROTE[WROTE_N] = [x0, y0, x1, y1, *src as u32, ls];
    WROTE_N += 1;
    1
}

//@ blocks_to_plane: bounded(2 resolutions, 2 precincts of 2 code-blocks in each band) | fns=opj_dwt_init_sparse_array | what=every decoded code-block is put where its band lies (low part first, then the high part) at its own place in the band, code-blocks not decoded are left out
#[kani::proof]
#[kani::unwind(26)]
#[kanitool::stub(opj_sparse_array_int32_create, sa_create)]
#[kanitool::stub(opj_sparse_array_int32_free, sa_free)]
#[kanitool::stub(opj_sparse_array_int32_write, sa_note)]
fn blocks_to_plane() {
    let mut t: opj_tcd_tilecomp_t = z();
    let mut res: [opj_tcd_resolution_t; 2] = z();
    let mut prec: [[opj_tcd_precinct_t; 2]; 4] = z();
    let mut cblk: [[[opj_tcd_cblk_dec_t; 2]; 2]; 4] = z();
    let mut ids: [[[i32; 2]; 2]; 4] = z();
    t.resolutions = res.as_mut_ptr();
    let mut want: [[u32; 6]; 16] = z();
    let mut n = 0;
    let (lw, lh): (i32, i32) = (kani::any(), kani::any());
    kani::assume(lw >= 0 && lw < 1 << 20 && lh >= 0 && lh < 1 << 20);
    res[0].x0 = kani::any();
    res[0].y0 = kani::any();
    kani::assume(res[0].x0 >= 0 && res[0].x0 < 1 << 20 && res[0].y0 >= 0 && res[0].y0 < 1 << 20);
    res[0].x1 = res[0].x0 + lw;
    res[0].y1 = res[0].y0 + lh;
    res[1].x1 = 100;
    res[1].y1 = 50;
    let skip: usize = kani::any();
    kani::assume(skip < 20);
    let mut k = 0;
    while k < 4 {
        let r = if k == 0 { 0 } else { 1 };
        let b = if k == 0 { 0 } else { k - 1 };
        res[r].numbands = if r == 0 { 1 } else { 3 };
        res[r].pw = 2;
        res[r].ph = 1;
        res[r].bands[b].bandno = k as u32;
        res[r].bands[b].x0 = kani::any();
        res[r].bands[b].y0 = kani::any();
        let (bx, by) = (res[r].bands[b].x0, res[r].bands[b].y0);
        kani::assume(bx >= 0 && bx < 1 << 20 && by >= 0 && by < 1 << 20);
        res[r].bands[b].precincts = prec[k].as_mut_ptr();
        let mut p = 0;
        while p < 2 {
            prec[k][p].cw = 1;
            prec[k][p].ch = 2;
            prec[k][p].cblks.dec = cblk[k][p].as_mut_ptr();
            let mut c = 0;
            while c < 2 {
                let (x, y, w, h): (i32, i32, i32, i32) = (kani::any(), kani::any(), kani::any(), kani::any());
                kani::assume(x >= 0 && x < 1 << 20 && y >= 0 && y < 1 << 20 && w >= 0 && w <= 1024 && h >= 0 && h <= 1024);
                let q = addr_of_mut!(cblk[k][p][c]);
                let id = (4 * k + 2 * p + c) as i32;
                ids[k][p][c] = id;
                unsafe {
                    (*q).x0 = bx + x;
                    (*q).y0 = by + y;
                    (*q).x1 = bx + x + w;
                    (*q).y1 = by + y + h;
                    if id as usize != skip { (*q).decoded_data = addr_of_mut!(ids[k][p][c]); }
                }
                let px = (x + if k & 1 != 0 { lw } else { 0 }) as u32;
                let py = (y + if k & 2 != 0 { lh } else { 0 }) as u32;
                if id as usize != skip {
                    want[n] = [px, py, px + w as u32, py + h as u32, id as u32, w as u32];
                    n += 1;
                }
                c += 1;
            }
            p += 1;
        }
        k += 1;
    }
    unsafe {
        let sa = opj_dwt_init_sparse_array(&mut t, 2);
        assert!(!sa.is_null() && PW == 100 && PH == 50);
        assert!(WROTE_N == n);
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(WROTE[i] == want[i]);
    }
    kani::cover!(skip == 5);
    kani::cover!(skip == 17);
}

//@ band_window: complete | fns=opj_dwt_get_band_coordinates | what=a tile window maps to each band's window by equation B-15, for every window, level and band; coordinates not asked for are not written
#[kani::proof]
fn band_window() {
    let mut t: opj_tcd_tilecomp_t = z();
    t.numresolutions = kani::any();
    kani::assume(t.numresolutions >= 1 && t.numresolutions <= 33);
    let resno: u32 = kani::any();
    kani::assume(resno < t.numresolutions);
    let bandno: u32 = kani::any();
    kani::assume(if resno == 0 { bandno == 0 } else { bandno <= 3 });
    let tc: [u32; 4] = kani::any();
    let mut got = [7u32; 4];
    let all: bool = kani::any();
    let nb = if resno == 0 { t.numresolutions - 1 } else { t.numresolutions - resno };
    kani::assume(nb <= 31);
    let p = got.as_mut_ptr();
    unsafe {
        opj_dwt_get_band_coordinates(&mut t, resno, bandno, tc[0], tc[1], tc[2], tc[3], p, if all { p.add(1) } else { null_mut() }, p.add(2), if all { p.add(3) } else { null_mut() });
    }
    let mut i = 0;
    while i < 4 {
        let o = if i % 2 == 0 { bandno & 1 } else { bandno >> 1 } as i64;
        let off = if nb == 0 { 0 } else { o << (nb - 1) };
        let v = tc[i] as i64 - off;
        let want = if v <= 0 { 0 } else { (v + (1i64 << nb) - 1) >> nb };
        if all || i % 2 == 0 { assert!(got[i] as i64 == want); } else { assert!(got[i] == 7); }
        i += 1;
    }
    kani::cover!(nb == 0);
    kani::cover!(nb == 31 && bandno == 3 && got[0] == 1);
}

//@ segment: complete | fns=opj_dwt_segment_grow | what=a window grows by the filter's width on both sides, kept between 0 and the band's size
#[kani::proof]
fn segment() {
    let (w, max, s0, e0): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let (mut s, mut e) = (s0, e0);
    unsafe { opj_dwt_segment_grow(w, max, &mut s, &mut e) };
    assert!(s as i64 == (s0 as i64 - w as i64).max(0));
    assert!(e as i64 == (e0 as i64 + w as i64).min(max as i64).min(u32::MAX as i64));
    kani::cover!(e0 > u32::MAX - w);
}

//@ largest: bounded(up to 4 resolutions) | fns=opj_dwt_max_resolution | what=scratch memory is sized by the largest width or height of any resolution but the first
#[kani::proof]
#[kani::unwind(5)]
fn largest() {
    let mut r: [opj_tcd_resolution_t; 4] = z();
    let mut i = 0;
    while i < 4 {
        r[i].x0 = kani::any();
        r[i].x1 = kani::any();
        r[i].y0 = kani::any();
        r[i].y1 = kani::any();
        kani::assume(r[i].x0 >= 0 && r[i].x1 >= r[i].x0 && r[i].y0 >= 0 && r[i].y1 >= r[i].y0);
        i += 1;
    }
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 4);
    let m = unsafe { opj_dwt_max_resolution(r.as_mut_ptr(), n) };
    let mut seen = n == 1 && m == 0;
    i = 1;
    while i < n as usize {
        let (w, h) = ((r[i].x1 - r[i].x0) as u32, (r[i].y1 - r[i].y0) as u32);
        assert!(m >= w && m >= h);
        seen |= m == w || m == h;
        i += 1;
    }
    assert!(seen);
    kani::cover!(n == 4 && m == 0x7fff_ffff);
}

//@ norms: complete | fns=opj_dwt_getnorm,opj_dwt_getnorm_real | what=every level and band has a positive norm, deep levels taking the last one tabulated
#[kani::proof]
fn norms() {
    let (level, orient): (u32, u32) = (kani::any(), kani::any());
    kani::assume(orient <= 3);
    let last = if orient == 0 { 9 } else { 8 };
    let n = opj_dwt_getnorm(level, orient);
    assert!(n > 0.7 && n == opj_dwt_norms[orient as usize][level.min(last) as usize]);
    let n = opj_dwt_getnorm_real(level, orient);
    assert!(n >= 1.0 && n == opj_dwt_norms_real[orient as usize][level.min(last) as usize]);
    kani::cover!(level > 20 && orient == 3);
}

//@ stepsize: complete | fns=opj_dwt_encode_stepsize | what=a quantizer step is signalled as exponent and 11-bit mantissa (E-3) that give it back, short of what the mantissa cannot hold
#[kani::proof]
#[kani::unwind(33)]
fn stepsize() {
    let s: i32 = kani::any();
    kani::assume(s >= 1);
    let bps: i32 = kani::any();
    kani::assume(bps >= 0 && bps <= 40);
    let mut out: opj_stepsize_t = z();
    unsafe { opj_dwt_encode_stepsize(s, bps, &mut out) };
    assert!(out.mant >= 0 && out.mant < 2048);
    // s / 2^13 = 2^(bps - expn) * (1 + mant / 2^11), rounded down
    let p = bps - out.expn;                  // between -13 and 17
    assert!(p >= -13 && p <= 17);
    let v = (2048 + out.mant as i64) << (p + 13);       // scaled by 2^11
    assert!(v <= (s as i64) << 11);
    assert!((s as i64) << 11 < (2049 + out.mant as i64) << (p + 13));
    kani::cover!(s == 8192 && out.mant == 0 && out.expn == bps);
}
