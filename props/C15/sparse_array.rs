// Contract of the coefficient plane kept in blocks (opj_sparse_array_int32): it is a plane of
// zeros until written, and reading and writing rectangles of it is reading and writing a plane.
// The state is abstracted by `cell`; every harness starts from an arbitrary state, so the
// contracts carry over any history of reads and writes.

const NB: usize = 4; // most blocks in one plane here
// Cells of one block here and at least a row more: the code leaves a pointer one row past the last
// row it has used, which it never follows. The cells beyond the block must keep their values.
const CB: usize = 20;
static mut P0: [i32; CB] = [0; CB];
static mut P1: [i32; CB] = [0; CB];
static mut P2: [i32; CB] = [0; CB];
static mut P3: [i32; CB] = [0; CB];
static mut TAKEN: usize = 0;
static mut WANT: usize = 0;
unsafe fn zeroed_block(n: usize, s: usize) -> *mut core::ffi::c_void {
    assert!(n * s == WANT); // a block holds exactly its cells
    assert!(TAKEN < NB);
    let p = match TAKEN {
        0 => &raw mut P0,
        1 => &raw mut P1,
        2 => &raw mut P2,
        _ => &raw mut P3,
    };
    let mut k = 0;
    while k < CB {
        (*p)[k] = 0;
        k += 1;
    }
    TAKEN += 1;
    p as *mut core::ffi::c_void
}

unsafe fn cell(sa: &opj_sparse_array_int32_t, x: u32, y: u32) -> i32 {
    let b = *sa.data_blocks.add(((y / sa.block_height) * sa.block_count_hor + x / sa.block_width) as usize);
    if b.is_null() {
        0
    } else {
        *b.add(((y % sa.block_height) * sa.block_width + x % sa.block_width) as usize)
    }
}

/// Reads (or writes) the rectangle given, of a plane `w` x `h` in blocks `bw` x `bh` of which the
/// ones in `mask` have been written before.
unsafe fn rect<const BUF: usize>(read: bool, w: u32, h: u32, bw: u32, bh: u32, mask: u32, r: [u32; 4], cs: u32, ls: u32, vals: &[[i32; CB]; NB], inbuf: &[i32; BUF], forgiving: i32) {
    let [x0, y0, x1, y1] = r;
    let (mut b0, mut b1, mut b2, mut b3) = (vals[0], vals[1], vals[2], vals[3]);
    let mut ptrs = [core::ptr::null_mut::<i32>(); NB];
    let own = [b0.as_mut_ptr(), b1.as_mut_ptr(), b2.as_mut_ptr(), b3.as_mut_ptr()];
    let mut i = 0;
    while i < NB {
        if (mask >> i) & 1 != 0 {
            ptrs[i] = own[i];
        }
        i += 1;
    }
    let mut sa = opj_sparse_array_int32_t {
        width: w,
        height: h,
        block_width: bw,
        block_height: bh,
        block_count_hor: (w + bw - 1) / bw,
        block_count_ver: (h + bh - 1) / bh,
        data_blocks: ptrs.as_mut_ptr(),
    };
    TAKEN = 0;
    WANT = (bw * bh * 4) as usize;
    let mut before = [0i32; 24];
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            before[(y * w + x) as usize] = cell(&sa, x, y);
            x += 1;
        }
        y += 1;
    }
    let mut buf = *inbuf;
    let valid = x0 < x1 && x1 <= w && y0 < y1 && y1 <= h;
    let got = if read {
        opj_sparse_array_int32_read(&sa, x0, y0, x1, y1, buf.as_mut_ptr(), cs, ls, forgiving)
    } else {
        opj_sparse_array_int32_write(&mut sa, x0, y0, x1, y1, buf.as_ptr(), cs, ls, forgiving)
    };
    assert!(got == if valid { 1 } else { forgiving });
    // the plane
    y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            let inside = valid && x0 <= x && x < x1 && y0 <= y && y < y1;
            let want = if !read && inside {
                inbuf[((y - y0) * ls + (x - x0) * cs) as usize]
            } else {
                before[(y * w + x) as usize]
            };
            assert!(cell(&sa, x, y) == want);
            x += 1;
        }
        y += 1;
    }
    i = 0;
    while i < CB {
        if i >= (bw * bh) as usize {
            assert!(b0[i] == vals[0][i] && b1[i] == vals[1][i] && b2[i] == vals[2][i] && b3[i] == vals[3][i]);
            assert!((TAKEN < 1 || P0[i] == 0) && (TAKEN < 2 || P1[i] == 0) && (TAKEN < 3 || P2[i] == 0) && (TAKEN < 4 || P3[i] == 0));
        }
        i += 1;
    }
    // the caller's memory
    let mut want = *inbuf;
    if read && valid {
        y = y0;
        while y < y1 {
            let mut x = x0;
            while x < x1 {
                want[((y - y0) * ls + (x - x0) * cs) as usize] = before[(y * w + x) as usize];
                x += 1;
            }
            y += 1;
        }
    }
    i = 0;
    while i < BUF {
        assert!(buf[i] == want[i]);
        i += 1;
    }
}

/// the rectangles spanned by the column ranges and row ranges given
unsafe fn all<const BUF: usize>(read: bool, w: u32, h: u32, bw: u32, bh: u32, mask: u32, xs: &[(u32, u32)], ys: &[(u32, u32)], cs: u32, ls: u32) {
    let vals: [[i32; CB]; NB] = kani::any();
    let buf: [i32; BUF] = kani::any();
    kani::cover!(vals[0][0] == 5 && buf[1] == i32::MIN);
    for &(x0, x1) in xs {
        for &(y0, y1) in ys {
            rect(read, w, h, bw, bh, mask, [x0, y0, x1, y1], cs, ls, &vals, &buf, 0);
        }
    }
}

macro_rules! rects { ($($n:ident $read:literal ($w:literal $h:literal $bw:literal $bh:literal) $mask:literal $xs:expr, $ys:expr, $cs:literal $ls:literal $buf:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(66)]
    #[kani::stub(opj_calloc, zeroed_block)]
    fn $n() {
        unsafe { all::<$buf>($read, $w, $h, $bw, $bh, $mask, &$xs, &$ys, $cs, $ls) }
    }
)* } }

//@ read_rows: bounded(20 rectangles of a 4 x 3 plane in 3 x 2 blocks, blocks 0 and 3 unwritten) | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_read_or_write,opj_sparse_array_is_region_valid | what=a rectangle read row by row is that rectangle of the plane, zero where nothing was written; nothing else of the caller's memory and nothing of the plane changes
//@ read_rows_2: bounded(12 rectangles of a 4 x 3 plane in 3 x 2 blocks, blocks 1 and 2 unwritten) | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_read_or_write,opj_sparse_array_is_region_valid | what=the same for the other blocks
//@ read_columns: bounded(12 rectangles of a 4 x 3 plane in 3 x 2 blocks) | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_read_or_write | what=the same read with column stride 3 (transposed)
//@ read_interleaved: bounded(8 rectangles of a 9 x 2 plane in 7 x 1 blocks) | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_read_or_write | what=the same read into every other cell
//@ read_by_8: bounded(4 rectangles of an 11 x 2 plane in 10 x 1 blocks) | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_read_or_write | what=the same read into every eighth cell, rows of 8 cells and more
//@ read_wide: bounded(8 rectangles of an 11 x 2 plane in 10 x 1 blocks) | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_read_or_write | what=the same for long rows
//@ write_rows: bounded(20 rectangles of a 4 x 3 plane in 3 x 2 blocks, blocks 0 and 3 unwritten) | fns=opj_sparse_array_int32_write,opj_sparse_array_int32_read_or_write,opj_sparse_array_is_region_valid | what=a rectangle written becomes that rectangle of the plane and nothing else of it changes
//@ write_rows_2: bounded(12 rectangles of a 4 x 3 plane in 3 x 2 blocks, blocks 1 and 2 unwritten) | fns=opj_sparse_array_int32_write,opj_sparse_array_int32_read_or_write,opj_sparse_array_is_region_valid | what=the same for the other blocks
//@ write_columns: bounded(12 rectangles of a 4 x 3 plane in 3 x 2 blocks) | fns=opj_sparse_array_int32_write,opj_sparse_array_int32_read_or_write | what=the same written with column stride 3 (transposed)
//@ write_interleaved: bounded(8 rectangles of a 9 x 2 plane in 7 x 1 blocks) | fns=opj_sparse_array_int32_write,opj_sparse_array_int32_read_or_write | what=the same written from every other cell
//@ write_by_8: bounded(4 rectangles of an 11 x 2 plane in 10 x 1 blocks) | fns=opj_sparse_array_int32_write,opj_sparse_array_int32_read_or_write | what=the same written from every eighth cell, rows of 8 cells and more
//@ write_wide: bounded(8 rectangles of an 11 x 2 plane in 10 x 1 blocks) | fns=opj_sparse_array_int32_write,opj_sparse_array_int32_read_or_write | what=the same for long rows
rects! {
    read_rows true (4 3 3 2) 0b0110 [(0, 4), (1, 3), (2, 4), (3, 4), (0, 1)], [(0, 3), (1, 2), (2, 3), (0, 2)], 1 5 21;
    read_rows_2 true (4 3 3 2) 0b1001 [(0, 4), (2, 4), (1, 2)], [(0, 3), (1, 3), (2, 3), (0, 1)], 1 4 17;
    read_columns true (4 3 3 2) 0b1011 [(0, 4), (2, 4), (1, 2)], [(0, 3), (1, 3), (2, 3), (0, 1)], 3 1 14;
    read_interleaved true (9 2 7 1) 0b0111 [(0, 9), (1, 7), (2, 8), (7, 9)], [(0, 1), (0, 2)], 2 19 57;
    read_by_8 true (11 2 10 1) 0b0111 [(0, 8), (1, 9)], [(0, 1), (1, 2)], 8 1 61;
    read_wide true (11 2 10 1) 0b1101 [(0, 11), (1, 5), (2, 10), (10, 11)], [(0, 1), (0, 2)], 1 12 37;
    write_rows false (4 3 3 2) 0b0110 [(0, 4), (1, 3), (2, 4), (3, 4), (0, 1)], [(0, 3), (1, 2), (2, 3), (0, 2)], 1 5 21;
    write_rows_2 false (4 3 3 2) 0b1001 [(0, 4), (2, 4), (1, 2)], [(0, 3), (1, 3), (2, 3), (0, 1)], 1 4 17;
    write_columns false (4 3 3 2) 0b1011 [(0, 4), (2, 4), (1, 2)], [(0, 3), (1, 3), (2, 3), (0, 1)], 3 1 14;
    write_interleaved false (9 2 7 1) 0b0111 [(0, 9), (1, 7), (2, 8), (7, 9)], [(0, 1), (0, 2)], 2 19 57;
    write_by_8 false (11 2 10 1) 0b0111 [(0, 8), (1, 9)], [(0, 1), (1, 2)], 8 1 61;
    write_wide false (11 2 10 1) 0b1101 [(0, 11), (1, 5), (2, 10), (10, 11)], [(0, 1), (0, 2)], 1 12 37;
}

unsafe fn not_valid(_: *const opj_sparse_array_int32_t, _: u32, _: u32, _: u32, _: u32) -> i32 {
    0
}
//@ region: complete | fns=opj_sparse_array_is_region_valid | what=a rectangle is valid exactly when it is not empty and lies inside the plane, for every plane size and rectangle
#[kani::proof]
fn region() {
    let mut sa: opj_sparse_array_int32_t = unsafe { core::mem::zeroed() };
    sa.width = kani::any();
    sa.height = kani::any();
    let (x0, y0, x1, y1): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let valid = x0 < x1 && x1 <= sa.width && y0 < y1 && y1 <= sa.height;
    kani::cover!(valid);
    kani::cover!(x1 > sa.width && x0 < sa.width && y0 < y1);
    assert!((unsafe { opj_sparse_array_is_region_valid(&sa, x0, y0, x1, y1) } != 0) == valid);
}
//@ outside: complete | fns=opj_sparse_array_int32_read,opj_sparse_array_int32_write | what=a rectangle that is not valid is reported (or ignored when the caller is forgiving) and nothing is touched
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(opj_sparse_array_is_region_valid, not_valid)]
fn outside() {
    let mut sa: opj_sparse_array_int32_t = unsafe { core::mem::zeroed() };
    sa.width = kani::any();
    sa.height = kani::any();
    let f: i32 = kani::any();
    kani::cover!(f == 1);
    unsafe {
        assert!(opj_sparse_array_int32_read(&sa, kani::any(), kani::any(), kani::any(), kani::any(), core::ptr::null_mut(), kani::any(), kani::any(), f) == f);
        assert!(opj_sparse_array_int32_write(&mut sa, kani::any(), kani::any(), kani::any(), kani::any(), core::ptr::null(), kani::any(), kani::any(), f) == f);
    }
}

static mut SELF: opj_sparse_array_int32_t = unsafe { core::mem::zeroed() };
static mut FRESH: [*mut i32; NB] = [core::ptr::null_mut(); NB];
static mut SIZES: [usize; 2] = [0; 2];
static mut CALLS: usize = 0;
unsafe fn two_objects(n: usize, s: usize) -> *mut core::ffi::c_void {
    assert!(CALLS < 2);
    SIZES[CALLS] = n.wrapping_mul(s);
    CALLS += 1;
    if CALLS == 1 {
        SELF = core::mem::zeroed();
        &raw mut SELF as *mut core::ffi::c_void
    } else {
        &raw mut FRESH as *mut core::ffi::c_void
    }
}
unsafe fn nothing(_: *mut core::ffi::c_void) {}

unsafe fn create_one(w: u32, h: u32, bw: u32, bh: u32) -> bool {
    CALLS = 0;
    let sa = opj_sparse_array_int32_create(w, h, bw, bh);
    let (nx, ny) = if bw == 0 || bh == 0 { (0, 0) } else { ((w as u64 + bw as u64 - 1) / bw as u64, (h as u64 + bh as u64 - 1) / bh as u64) };
    let ok = w > 0 && h > 0 && bw > 0 && bh > 0 && bw as u64 * bh as u64 * 4 <= u32::MAX as u64 && nx * ny <= u32::MAX as u64;
    if w > 0 && h > 0 && bw > 0 && bh > 0 && bw as u64 * bh as u64 * 4 > u32::MAX as u64 {
        assert!(sa.is_null()); // a block that cannot be allocated
    }
    if !ok && (w == 0 || h == 0 || bw == 0 || bh == 0 || nx * ny > u32::MAX as u64) {
        assert!(sa.is_null());
    }
    if ok {
        assert!(!sa.is_null());
        assert!((*sa).width == w && (*sa).height == h && (*sa).block_width == bw && (*sa).block_height == bh);
        assert!((*sa).block_count_hor as u64 == nx && (*sa).block_count_ver as u64 == ny);
        assert!(SIZES[0] == core::mem::size_of::<opj_sparse_array_int32_t>());
        assert!(SIZES[1] as u64 == nx * ny * 8);
        assert!((*sa).data_blocks == &raw mut FRESH as *mut *mut i32);
    }
    ok
}

//@ create: bounded(block sides 0, 1, 3, 64, 1024, 32767 and 32768; plane height and width up to 2^32-1 on one side, 5 on the other) | fns=opj_sparse_array_int32_create | what=a new plane has the given size, enough blocks to cover it and no block yet; a plane without cells or that cannot be held is refused
#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(opj_calloc, two_objects)]
#[kani::stub(opj_free, nothing)]
fn create() {
    let v: u32 = kani::any();
    let mut made = 0;
    unsafe {
        for (bw, bh) in [(64u32, 64u32), (1, 1024), (1024, 1), (3, 2), (32767, 32767), (32768, 32768), (0, 4), (4, 0)] {
            made += create_one(v, 5, bw, bh) as u32 + create_one(5, v, bw, bh) as u32;
        }
        made += create_one(70000, 70000, 1, 1) as u32;
        made += create_one(u32::MAX, u32::MAX, 65536, 65535) as u32;
        made += create_one(u32::MAX, u32::MAX, 1, 65535) as u32;
    }
    kani::cover!(made == 10);
    kani::cover!(v == u32::MAX);
}

static mut FREED: [*mut core::ffi::c_void; 8] = [core::ptr::null_mut(); 8];
static mut NFREED: usize = 0;
unsafe fn freed(p: *mut core::ffi::c_void) {
    assert!(NFREED < 8);
    FREED[NFREED] = p;
    NFREED += 1;
}
//@ release: bounded(2 x 2 blocks) | fns=opj_sparse_array_int32_free | what=freeing a plane frees each block written, the block table and the plane exactly once, and freeing none is harmless
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(opj_free, freed)]
fn release() {
    let mask: u8 = kani::any();
    kani::assume(mask < 16);
    kani::cover!(mask == 9);
    unsafe {
        opj_sparse_array_int32_free(core::ptr::null_mut());
        assert!(NFREED == 0);
        let mut cells = [0i32; 4];
        let mut ptrs = [core::ptr::null_mut::<i32>(); 4];
        let mut i = 0;
        while i < 4 {
            if (mask >> i) & 1 != 0 {
                ptrs[i] = (&raw mut cells as *mut i32).add(i);
            }
            i += 1;
        }
        let mut sa: opj_sparse_array_int32_t = core::mem::zeroed();
        sa.block_count_hor = 2;
        sa.block_count_ver = 2;
        sa.data_blocks = ptrs.as_mut_ptr();
        opj_sparse_array_int32_free(&mut sa);
        let mut want = 0;
        i = 0;
        while i < 4 {
            let mut times = 0;
            let mut k = 0;
            while k < NFREED {
                times += (FREED[k] == (&raw mut cells as *mut i32).add(i) as *mut core::ffi::c_void) as u32;
                k += 1;
            }
            assert!(times == (mask >> i & 1) as u32);
            want += times;
            i += 1;
        }
        assert!(NFREED == want as usize + 2);
        assert!(FREED[NFREED - 2] == ptrs.as_mut_ptr() as *mut core::ffi::c_void || FREED[NFREED - 1] == ptrs.as_mut_ptr() as *mut core::ffi::c_void);
        assert!(FREED[NFREED - 2] == &raw mut sa as *mut core::ffi::c_void || FREED[NFREED - 1] == &raw mut sa as *mut core::ffi::c_void);
    }
}
