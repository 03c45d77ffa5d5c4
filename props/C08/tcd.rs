// Contracts of the component-transform and level-shift stages of a tile.
use std::ptr::addr_of_mut;
fn z<T>() -> T { unsafe { core::mem::zeroed() } }
const S: usize = 4;
struct T {
    tcd: opj_tcd_t,
    img: opj_tcd_image_t,
    tile: opj_tcd_tile_t,
    comps: [opj_tcd_tilecomp_t; 3],
    res: [[opj_tcd_resolution_t; 2]; 3],
    image: core::mem::ManuallyDrop<opj_image_t>,      // its destructor is another matter
    icomps: [opj_image_comp_t; 3],
    tcp: opj_tcp_t,
    tccps: [opj_tccp_t; 3],
    data: [[i32; S]; 3],
    win: [[i32; S]; 3],
}
impl T {
    /// `w` by `h` samples in each of three components
    unsafe fn wire(&mut self, nc: u32, w: i32, h: i32) {
        self.tcd.tcd_image = addr_of_mut!(self.img);
        self.tcd.image = addr_of_mut!(*self.image);
        self.tcd.tcp = addr_of_mut!(self.tcp);
        self.tcd.whole_tile_decoding = 1;
        self.img.tiles = addr_of_mut!(self.tile);
        self.tile.comps = self.comps.as_mut_ptr();
        self.tile.numcomps = nc;
        self.image.comps = self.icomps.as_mut_ptr();
        self.image.numcomps = nc;
        self.tcp.tccps = self.tccps.as_mut_ptr();
        let mut c = 0;
        while c < 3 {
            let (x0, y0) = (3 + c as i32, 5);
            self.comps[c].x0 = x0;
            self.comps[c].x1 = x0 + w;
            self.comps[c].y0 = y0;
            self.comps[c].y1 = y0 + h;
            self.comps[c].numresolutions = 1;
            self.comps[c].minimum_num_resolutions = 1;
            self.comps[c].resolutions = self.res[c].as_mut_ptr();
            let r = addr_of_mut!(self.res[c][0]);
            (*r).x0 = x0;
            (*r).x1 = x0 + w;
            (*r).y0 = y0;
            (*r).y1 = y0 + h;
            (*r).win_x0 = x0 as u32;
            (*r).win_x1 = (x0 + w) as u32;
            (*r).win_y0 = y0 as u32;
            (*r).win_y1 = (y0 + h) as u32;
            self.comps[c].data = self.data[c].as_mut_ptr();
            self.comps[c].data_win = self.win[c].as_mut_ptr();
            self.comps[c].data_size = 4 * S;
            c += 1;
        }
    }
    fn new() -> T {
        T { tcd: z(), img: z(), tile: z(), comps: z(), res: z(), image: z(), icomps: z(), tcp: z(), tccps: z(), data: z(), win: z() }
    }
}

unsafe fn range(whole: bool) {
    let mut t = T::new();
    t.wire(3, 1, 1);
    t.tcd.whole_tile_decoding = whole as i32;
    let mut used = [1i32; 3];
    let subset: bool = kani::any();
    if subset { used[1] = 0; t.tcd.used_component = used.as_mut_ptr(); }
    let mut c = 0;
    while c < 3 {
        t.icomps[c].prec = kani::any();
        kani::assume(t.icomps[c].prec >= 1 && t.icomps[c].prec <= 31);
        t.icomps[c].sgnd = kani::any();
        kani::assume(t.icomps[c].sgnd <= 1);
        t.tccps[c].qmfbid = 1;
        t.tccps[c].m_dc_level_shift = if t.icomps[c].sgnd == 1 { 0 } else { 1 << (t.icomps[c].prec - 1) };
        let mut i = 0;
        while i < 1 {
            let v: i32 = kani::any();
            kani::assume(v >= -(1 << 30) && v < (1 << 30));
            t.data[c][i] = v;
            t.win[c][i] = v;
            i += 1;
        }
        c += 1;
    }
    let old = t.data;
    let ok = unsafe { opj_tcd_dc_level_shift_decode(&mut t.tcd) };
    assert!(ok == 1);
    c = 0;
    while c < 3 {
        let p = t.icomps[c].prec;
        let (lo, hi) = if t.icomps[c].sgnd == 1 { (-(1i64 << (p - 1)), (1i64 << (p - 1)) - 1) } else { (0, (1i64 << p) - 1) };
        let mut i = 0;
        while i < 1 {
            let want = (old[c][i] as i64 + t.tccps[c].m_dc_level_shift as i64).max(lo).min(hi) as i32;
            let want = if subset && c == 1 { old[c][i] } else { want };
            assert!(if whole { t.data[c][i] == want && t.win[c][i] == old[c][i] } else { t.win[c][i] == want && t.data[c][i] == old[c][i] });
            i += 1;
        }
        c += 1;
    }
    kani::cover!(subset);
    kani::cover!(t.icomps[2].sgnd == 1 && t.icomps[0].prec == 31);
}

//@ shift_range: bounded(3 components of one sample) | fns=opj_tcd_dc_level_shift_decode | what=on the reversible path each sample of each wanted component becomes value plus that component's shift, clamped to its precision and signedness; other components stay
#[kani::proof]
#[kani::unwind(5)]
fn shift_range() { unsafe { range(true) } }

//@ shift_range_window: bounded(3 components of one sample) | fns=opj_tcd_dc_level_shift_decode | what=for a decoded window, on the reversible path each sample of each wanted component becomes value plus that component's shift, clamped to its precision and signedness; other components stay
#[kani::proof]
#[kani::unwind(5)]
fn shift_range_window() { unsafe { range(false) } }

//@ shift_round: bounded(1 component of 4 samples) | fns=opj_tcd_dc_level_shift_decode | what=on the irreversible path each value is rounded to the nearest integer (even on ties), shifted and clamped; huge values saturate
#[kani::proof]
#[kani::unwind(5)]
fn shift_round() {
    let mut t = T::new();
    unsafe { t.wire(1, 2, 2) };
    t.icomps[0].prec = kani::any();
    kani::assume(t.icomps[0].prec >= 1 && t.icomps[0].prec <= 31);
    t.icomps[0].sgnd = kani::any();
    kani::assume(t.icomps[0].sgnd <= 1);
    t.tccps[0].m_dc_level_shift = if t.icomps[0].sgnd == 1 { 0 } else { 1 << (t.icomps[0].prec - 1) };
    let q: i32 = kani::any();       // quarters
    kani::assume(q >= -(1 << 22) && q <= 1 << 22);
    let f = q as f32 / 4.0;
    t.data[0] = [f.to_bits() as i32, (3e9f32).to_bits() as i32, (-3e9f32).to_bits() as i32, (2.5f32).to_bits() as i32];
    let ok = unsafe { opj_tcd_dc_level_shift_decode(&mut t.tcd) };
    assert!(ok == 1);
    let p = t.icomps[0].prec;
    let (lo, hi) = if t.icomps[0].sgnd == 1 { (-(1i64 << (p - 1)), (1i64 << (p - 1)) - 1) } else { (0, (1i64 << p) - 1) };
    let down = q.div_euclid(4);
    let near = match q.rem_euclid(4) { 0 | 1 => down, 3 => down + 1, _ => if down % 2 == 0 { down } else { down + 1 } };
    let s = t.tccps[0].m_dc_level_shift as i64;
    assert!(t.data[0][0] as i64 == (near as i64 + s).max(lo).min(hi));
    assert!(t.data[0][1] as i64 == hi && t.data[0][2] as i64 == lo);
    assert!(t.data[0][3] as i64 == (2 + s).max(lo).min(hi));
    kani::cover!(q == -6 && p == 8);
}

//@ shift_reduced: bounded(1 component of 2 by 2 samples, every corner of it) | fns=opj_tcd_dc_level_shift_decode | what=at a reduced resolution only the decoded corner of the sample array is shifted
#[kani::proof]
#[kani::unwind(5)]
fn shift_reduced() {
    reduced(1, 2);
    reduced(2, 1);
    reduced(1, 1);
    reduced(0, 2);
    reduced(2, 0);
}

fn reduced(w: i32, h: i32) {
    let mut t = T::new();
    unsafe { t.wire(1, 2, 2) };
    // resolution 1 is the full 2 x 2, resolution 0 a w x h corner of it
    t.res[0][1] = t.res[0][0];
    t.res[0][0].x1 = t.res[0][0].x0 + w;
    t.res[0][0].y1 = t.res[0][0].y0 + h;
    t.comps[0].minimum_num_resolutions = 2;
    t.icomps[0].prec = 8;
    t.tccps[0].qmfbid = 1;
    t.tccps[0].m_dc_level_shift = 128;
    let mut i = 0;
    while i < S {
        t.data[0][i] = kani::any();
        kani::assume(t.data[0][i] >= -128 && t.data[0][i] < 128);
        i += 1;
    }
    let old = t.data[0];
    let ok = unsafe { opj_tcd_dc_level_shift_decode(&mut t.tcd) };
    assert!(ok == 1);
    i = 0;
    while i < S {
        let inside = (i % 2) < w as usize && i / 2 < h as usize;
        assert!(t.data[0][i] == old[i] + if inside { 128 } else { 0 });
        i += 1;
    }
    kani::cover!(old[3] == -7);
}

//@ lossless_stages: bounded(3 components of one sample, every precision up to 24 bits) | fns=opj_tcd_dc_level_shift_encode,opj_tcd_mct_encode,opj_tcd_mct_decode,opj_tcd_dc_level_shift_decode | what=on the reversible path shift and component transform followed by their inverses give back every sample, whether or not the component transform is on
#[kani::proof]
#[kani::unwind(5)]
fn lossless_stages() {
    let mut m = opj_event_mgr::default();
    let mut t = T::new();
    unsafe { t.wire(3, 1, 1) };
    t.tcp.mct = kani::any();
    kani::assume(t.tcp.mct <= 1);
    let p: u32 = kani::any();
    kani::assume(p >= 1 && p <= 24);
    let signed: bool = kani::any();
    let mut c = 0;
    while c < 3 {
        t.icomps[c].prec = p;
        t.icomps[c].sgnd = signed as u32;
        t.tccps[c].qmfbid = 1;
        t.tccps[c].m_dc_level_shift = if signed { 0 } else { 1 << (p - 1) };
        let mut i = 0;
        while i < 1 {
            let v: i32 = kani::any();
            if signed { kani::assume(v >= -(1 << (p - 1)) && v < 1 << (p - 1)); } else { kani::assume(v >= 0 && v < 1 << p); }
            t.data[c][i] = v;
            i += 1;
        }
        c += 1;
    }
    let old = t.data;
    unsafe {
        assert!(opj_tcd_dc_level_shift_encode(&mut t.tcd) == 1);
        assert!(t.data[1][0] == old[1][0] - t.tccps[1].m_dc_level_shift);
        assert!(opj_tcd_mct_encode(&mut t.tcd) == 1);
        assert!(opj_tcd_mct_decode(&mut t.tcd, &mut m) == 1);
        assert!(opj_tcd_dc_level_shift_decode(&mut t.tcd) == 1);
    }
    assert!(t.data[0][0] == old[0][0] && t.data[1][0] == old[1][0] && t.data[2][0] == old[2][0]);
    kani::cover!(t.tcp.mct == 1 && !signed && p == 8);
    kani::cover!(t.tcp.mct == 0 && signed);
}

static mut CALLED: u32 = 0;
static mut A: [*mut u8; 3] = [core::ptr::null_mut(); 3];
static mut CNT: usize = 0;
unsafe fn s_rct(a: *mut i32, b: *mut i32, c: *mut i32, n: usize) { A = [a as *mut u8, b as *mut u8, c as *mut u8]; CNT = n; CALLED += 1; }
unsafe fn s_ict(a: *mut f32, b: *mut f32, c: *mut f32, n: usize) { A = [a as *mut u8, b as *mut u8, c as *mut u8]; CNT = n; CALLED += 10; }
unsafe fn s_custom(m: *mut u8, n: usize, d: *mut *mut u8, nc: u32, _s: u32) -> OPJ_BOOL {
    assert!(nc == 3 && m as usize == MATRIX as usize);
    A = [*d, *d.add(1), *d.add(2)];
    CNT = n;
    CALLED += 100;
    1
}
static mut MATRIX: *mut f32 = core::ptr::null_mut();

//@ which_inverse: complete | fns=opj_tcd_mct_decode | what=the transform undone is the one signalled (reversible with the 5/3 filter, irreversible with the 9/7, custom when present), over exactly the samples decoded of components 0 to 2; components of different sizes or resolutions are refused
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(crate::mct::opj_mct_decode, s_rct)]
#[kani::stub(crate::mct::opj_mct_decode_real, s_ict)]
#[kani::stub(crate::mct::opj_mct_decode_custom, s_custom)]
fn which_inverse() {
    let mut m = opj_event_mgr::default();
    let mut t = T::new();
    let nc: u32 = kani::any();
    kani::assume(nc >= 1 && nc <= 3);
    unsafe { t.wire(nc, 2, 2) };
    let whole: bool = kani::any();
    t.tcd.whole_tile_decoding = whole as i32;
    t.tcp.mct = kani::any();
    kani::assume(t.tcp.mct <= 2);
    t.tccps[0].qmfbid = kani::any();
    kani::assume(t.tccps[0].qmfbid <= 1);
    let subset: bool = kani::any();
    let mut used = [1i32; 3];
    if subset { t.tcd.used_component = used.as_mut_ptr(); }
    let mut mat = [0f32; 9];
    let has: bool = kani::any();
    unsafe { MATRIX = if has { mat.as_mut_ptr() } else { core::ptr::null_mut() }; t.tcp.m_mct_decoding_matrix = MATRIX; }
    let mut n = [0usize; 3];
    let mut c = 0;
    while c < 3 {
        let (w, h): (u8, u8) = (kani::any(), kani::any());
        t.res[c][0].x1 = t.res[c][0].x0 + w as i32;
        t.res[c][0].y1 = t.res[c][0].y0 + h as i32;
        t.res[c][0].win_x1 = t.res[c][0].win_x0 + w as u32;
        t.res[c][0].win_y1 = t.res[c][0].win_y0 + h as u32;
        n[c] = w as usize * h as usize;
        c += 1;
    }
    let ok = unsafe { opj_tcd_mct_decode(&mut t.tcd, &mut m) };
    let same = n[0] == n[1] && n[1] == n[2];
    unsafe {
        if t.tcp.mct == 0 || subset || nc < 3 {
            assert!(ok == 1 && CALLED == 0);
        } else if !same {
            assert!(ok == 0 && CALLED == 0);
        } else if t.tcp.mct == 2 && !has {
            assert!(ok == 1 && CALLED == 0);
        } else if ok == 0 {
            assert!(t.tcp.mct == 2 && CALLED == 0);      // no memory for the pointer table
        } else {
            assert!(CALLED == if t.tcp.mct == 2 { 100 } else if t.tccps[0].qmfbid == 1 { 1 } else { 10 });
            assert!(CNT == n[0]);
            let c: usize = kani::any();
            kani::assume(c < 3);
            assert!(A[c] == if whole { t.data[c].as_mut_ptr() } else { t.win[c].as_mut_ptr() } as *mut u8);
        }
        kani::cover!(CALLED == 1 && whole);
        kani::cover!(CALLED == 10 && !whole);
        kani::cover!(CALLED == 100);
    }
}

//@ which_forward: complete | fns=opj_tcd_mct_encode | what=the transform applied is the one signalled, over every sample of the tile
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(crate::mct::opj_mct_encode, s_rct)]
#[kani::stub(crate::mct::opj_mct_encode_real, s_ict)]
#[kani::stub(crate::mct::opj_mct_encode_custom, s_custom)]
fn which_forward() {
    let mut t = T::new();
    unsafe { t.wire(3, 2, 2) };
    t.tcp.mct = kani::any();
    kani::assume(t.tcp.mct <= 2);
    t.tccps[0].qmfbid = kani::any();
    kani::assume(t.tccps[0].qmfbid <= 1);
    let mut mat = [0f32; 9];
    let has: bool = kani::any();
    unsafe { MATRIX = if has { mat.as_mut_ptr() } else { core::ptr::null_mut() }; t.tcp.m_mct_coding_matrix = MATRIX; }
    let (w, h): (u8, u8) = (kani::any(), kani::any());
    t.comps[0].x1 = t.comps[0].x0 + w as i32;
    t.comps[0].y1 = t.comps[0].y0 + h as i32;
    let ok = unsafe { opj_tcd_mct_encode(&mut t.tcd) };
    unsafe {
        if t.tcp.mct == 0 || t.tcp.mct == 2 && !has { assert!(ok == 1 && CALLED == 0); }
        else if ok == 0 { assert!(t.tcp.mct == 2 && CALLED == 0); }
        else {
            assert!(CALLED == if t.tcp.mct == 2 { 100 } else if t.tccps[0].qmfbid == 1 { 1 } else { 10 });
            assert!(CNT == w as usize * h as usize);
            let c: usize = kani::any();
            kani::assume(c < 3);
            assert!(A[c] == t.data[c].as_mut_ptr() as *mut u8);
        }
        kani::cover!(CALLED == 10);
        kani::cover!(CALLED == 100);
    }
}
