// Contracts of the decoded area: which part of the image and which tiles a window names, the
// extents of the decoded components, and where the samples of a decoded tile land in them.
use core::mem::ManuallyDrop as M;
fn zi<T>() -> T { unsafe { core::mem::zeroed() } }
fn no_msg(_: &opj_event_mgr, _: EventType, _: &str) -> i32 { 0 }
fn off(_: &opj_event_mgr, _: EventType) -> bool { false }

// ceil(a / b) and a / b as functions (C05 says which)
static mut SEEN: [(u32, u32, u32); 12] = [(0, 0, 0); 12];
static mut NSEEN: usize = 0;
fn cdiv(a: u32, b: u32) -> u32 {
    assert!(b > 0);
    unsafe {
        let mut k = 0;
        while k < NSEEN {
            if SEEN[k].0 == a && SEEN[k].1 == b { return SEEN[k].2; }
            k += 1;
        }
        assert!(NSEEN < 12);
        let r: u32 = kani::any();
        kani::assume(r <= a && (a == 0 || r > 0));
        SEEN[NSEEN] = (a, b, r);
        NSEEN += 1;
        r
    }
}
fn cdiv_i(a: i32, b: i32) -> i32 {
    assert!(a >= 0 && b > 0);
    cdiv(a as u32, b as u32) as i32
}
fn cs(a: u32, s: u32) -> i64 { (a as i64 + (1i64 << s) - 1) >> s }

//@ image_dimensions: bounded(one component) | fns=opj_j2k_update_image_dimensions | what=the size of a decoded component is that of the area on its own grid at the reduced resolution, for any area, subsampling and reduction; an area beyond 2^31-1 or with a negative size is refused
#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(crate::math::opj_uint_ceildiv, cdiv)]
#[kani::stub(crate::math::opj_int_ceildiv, cdiv_i)]
fn image_dimensions() { dimensions(1, None) }
//@ image_dimensions_2: bounded(two components with subsampling 1 x 1 and 2 x 3, reduction 0 and 4) | fns=opj_j2k_update_image_dimensions | what=the same for each of several components
#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(crate::math::opj_uint_ceildiv, cdiv)]
#[kani::stub(crate::math::opj_int_ceildiv, cdiv_i)]
fn image_dimensions_2() { dimensions(2, Some([(1, 1, 0), (2, 3, 4)])) }
fn dimensions(n: u32, sub: Option<[(u32, u32, u32); 2]>) {
    let mut img: M<opj_image_t> = zi();
    let mut comps: [opj_image_comp_t; 2] = zi();
    let mut m: M<opj_event_mgr> = zi();
    img.x0 = kani::any(); img.y0 = kani::any(); img.x1 = kani::any(); img.y1 = kani::any();
    img.numcomps = n;
    img.comps = comps.as_mut_ptr();
    let mut k = 0;
    while k < 2 {
        let c = &mut comps[k];
        (c.dx, c.dy, c.factor) = match sub { Some(s) => s[k], None => (kani::any(), kani::any(), kani::any()) };
        k += 1;
        kani::assume(c.dx > 0 && c.dx < 256 && c.dy > 0 && c.dy < 256 && c.factor < 31);
    }
    let old = comps;
    let ok = opj_j2k_update_image_dimensions(&mut img, &mut m) != 0;
    let top = i32::MAX as u32;
    let mut want = img.x0 <= top && img.y0 <= top && img.x1 <= top && img.y1 <= top;
    let mut k = 0;
    while k < n as usize {
        let (c, o) = (&comps[k], &old[k]);
        assert!(c.dx == o.dx && c.dy == o.dy && c.factor == o.factor);
        if want {
            let w = cs(cdiv(img.x1, o.dx), o.factor) - cs(cdiv(img.x0, o.dx), o.factor);
            let h = cs(cdiv(img.y1, o.dy), o.factor) - cs(cdiv(img.y0, o.dy), o.factor);
            want &= w >= 0 && h >= 0;
            if ok {
                assert!(c.x0 == cdiv(img.x0, o.dx) && c.y0 == cdiv(img.y0, o.dy));
                assert!(c.w as i64 == w && c.h as i64 == h);
            }
        }
        k += 1;
    }
    assert!(ok == want);
    kani::cover!(ok && comps[n as usize - 1].w > 5 && old[n as usize - 1].factor >= 3);
    kani::cover!(!ok && img.x1 < top && img.y1 < top && img.x0 < top && img.y0 < top);
}

static mut DIMS: i32 = 0;
static mut ASKED: bool = false;
fn dims(_: &mut opj_image, _: &mut opj_event_mgr) -> i32 {
    unsafe {
        assert!(!ASKED);
        ASKED = true;
        DIMS
    }
}
/// One axis of a window: what the area becomes and which tiles it needs, or that it is refused.
fn axis(s: i32, e: i32, i0: u32, i1: u32, t0: u32, td: u32, n: u32) -> Option<(u32, u32, u32, u32)> {
    if s < 0 || s as u32 > i1 || e <= 0 || (e as u32) < i0 { return None; }
    let (a, ta) = if (s as u32) < i0 { (i0, 0) } else { (s as u32, (s as u32 - t0) / td) };
    let (b, tb) = if e as u32 > i1 { (i1, n) } else { (e as u32, ((e as u64 - t0 as u64 + td as u64 - 1) / td as u64) as u32) };
    Some((a, b, ta, tb))
}
fn area(whole: bool, td: [u32; 2], n: [u32; 2]) -> (bool, bool) {
    let (mut j, mut pi, mut out): (M<opj_j2k>, M<opj_image_t>, M<opj_image_t>) = (zi(), zi(), zi());
    let mut comps: [opj_image_comp_t; 2] = zi();
    let mut tcp: opj_tcp_t = zi();
    let mut m: M<opj_event_mgr> = zi();
    let mut d: opj_j2k_dec_t = zi();
    let read: bool = kani::any();
    d.m_state = if read { J2KState::TPHSOT } else { J2KState::MH };
    d.m_start_tile_x = 91; d.m_end_tile_x = 92; d.m_start_tile_y = 93; d.m_end_tile_y = 94;
    j.m_specific_param = C2RustUnnamed_2 { m_decoder: d };
    let reduce: u32 = kani::any();
    j.m_cp.m_specific_param.m_dec = opj_decoding_param { m_reduce: reduce, m_layer: 0 };
    pi.x0 = kani::any(); pi.y0 = kani::any(); pi.x1 = kani::any(); pi.y1 = kani::any();
    j.m_cp.tx0 = kani::any(); j.m_cp.ty0 = kani::any();
    j.m_cp.tdx = td[0]; j.m_cp.tdy = td[1]; j.m_cp.tw = n[0]; j.m_cp.th = n[1];
    kani::assume(pi.x0 < pi.x1 && pi.y0 < pi.y1 && j.m_cp.tx0 <= pi.x0 && j.m_cp.ty0 <= pi.y0); // C12 (siz)
    j.m_private_image = &mut *pi;
    j.m_cp.tcps = &mut tcp;
    out.numcomps = 2;
    out.comps = comps.as_mut_ptr();
    unsafe { DIMS = kani::any(); kani::assume(DIMS == 0 || DIMS == 1); }
    let (sx, sy, ex, ey): (i32, i32, i32, i32) = if whole { (0, 0, 0, 0) } else { (kani::any(), kani::any(), kani::any(), kani::any()) };
    kani::assume(whole || sx != 0 || sy != 0 || ex != 0 || ey != 0);
    let ok = opj_j2k_set_decode_area(&mut j, &mut out, sx, sy, ex, ey, &mut m) != 0;
    let d = unsafe { &j.m_specific_param.m_decoder };
    let got = (d.m_start_tile_x, d.m_end_tile_x, d.m_start_tile_y, d.m_end_tile_y);
    let asked = unsafe { ASKED };
    if !read {
        assert!(!ok && !asked && got == (91, 92, 93, 94) && out.x1 == 0);
        return (false, false);
    }
    assert!(comps[0].factor == reduce && comps[1].factor == reduce);
    if whole {
        assert!(asked && ok == (unsafe { DIMS } != 0));
        assert!((out.x0, out.y0, out.x1, out.y1) == (pi.x0, pi.y0, pi.x1, pi.y1) && got == (0, n[0], 0, n[1]));
        return (ok, !ok);
    }
    match (axis(sx, ex, pi.x0, pi.x1, j.m_cp.tx0, td[0], n[0]), axis(sy, ey, pi.y0, pi.y1, j.m_cp.ty0, td[1], n[1])) {
        (Some((x0, x1, a, b)), Some((y0, y1, c, e))) => {
            assert!(asked && ok == (unsafe { DIMS } != 0));
            assert!((out.x0, out.y0, out.x1, out.y1) == (x0, y0, x1, y1));
            assert!(got == (a, b, c, e));
            assert!(d.m_discard_tiles);
            (ok && a == 1 && b == 3 && x1 < pi.x1, ok && (ex as u32) > pi.x1 && (sy as u32) < pi.y0)
        }
        _ => { assert!(!ok && !asked); (false, false) }
    }
}
macro_rules! areas { ($($n:ident $w:literal $td:expr, $nt:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(4)]
    #[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
    #[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
    #[kani::stub(opj_j2k_update_image_dimensions, dims)]
    fn $n() { let (p, q) = area($w, $td, $nt); kani::cover!(p); kani::cover!(q); }
)* } }
//@ area_whole: complete | fns=opj_j2k_set_decode_area | what=no window means the whole image and every tile; before the main header is read it is refused
//@ area_window: bounded(tiles of 1024 x 128) | fns=opj_j2k_set_decode_area | what=a window is clipped to the image and needs exactly the tiles from the one holding its first sample to the one holding its last; one that is negative or lies outside the image is refused
//@ area_window_odd: bounded(tiles of 7 x 2^31-1 samples) | fns=opj_j2k_set_decode_area | what=the same for other tile sizes
areas! {
    area_whole true [100, 100], [3, 2];
    area_window false [1024, 128], [900, 7];
    area_window_odd false [7, 0x7fffffff], [5, 1];
}

//@ reduction: bounded(two components) | fns=opj_j2k_set_decoded_resolution_factor | what=a reduction is set for every component if each has more resolutions than that, and refused otherwise or before the header is read
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn reduction() {
    let (mut j, mut pi): (M<opj_j2k>, M<opj_image_t>) = (zi(), zi());
    let mut comps: [opj_image_comp_t; 2] = zi();
    let mut dtcp: opj_tcp_t = zi();
    let mut tccps: [opj_tccp_t; 2] = zi();
    let mut m: M<opj_event_mgr> = zi();
    let read: bool = kani::any();
    let mut d: opj_j2k_dec_t = zi();
    tccps[0].numresolutions = kani::any();
    tccps[1].numresolutions = kani::any();
    dtcp.tccps = tccps.as_mut_ptr();
    d.m_default_tcp = if read { &mut dtcp } else { core::ptr::null_mut() };
    j.m_specific_param = C2RustUnnamed_2 { m_decoder: d };
    pi.numcomps = 2;
    pi.comps = comps.as_mut_ptr();
    j.m_private_image = &mut *pi;
    let r: u32 = kani::any();
    let ok = opj_j2k_set_decoded_resolution_factor(&mut j, r, &mut m) != 0;
    assert!(ok == (read && r < tccps[0].numresolutions && r < tccps[1].numresolutions));
    if ok { assert!(comps[0].factor == r && comps[1].factor == r && unsafe { j.m_cp.m_specific_param.m_dec.m_reduce } == r); }
    kani::cover!(ok && r == 4);
    kani::cover!(!ok && read && r == 4);
}

// ---- where the samples of a decoded tile land
#[derive(Clone, Copy)]
struct Case { whole: bool, x0: i32, y0: i32, x1: i32, y1: i32, // the tile-component's resolution (or its window)
              ox: u32, oy: u32, w: u32, h: u32, f: u32, // the output component: origin on its grid, reduced size, reduction
              have: bool } // the output already has samples
static mut NEW: [i32; 24] = [0; 24];
static mut GIVEN: usize = 0;
fn fresh(n: usize) -> *mut core::ffi::c_void {
    unsafe {
        assert!(GIVEN == 0 && n <= 96);
        GIVEN = n;
        &raw mut NEW as *mut core::ffi::c_void
    }
}
fn landed(c: Case) {
    let (mut img, mut out): (M<opj_image_t>, M<opj_image_t>) = (zi(), zi());
    let mut tcd: opj_tcd_t = zi();
    let mut timg: opj_tcd_image = zi();
    let mut tile: opj_tcd_tile_t = zi();
    let mut tilec: opj_tcd_tilecomp_t = zi();
    let mut res: [opj_tcd_resolution_t; 2] = zi();
    let mut ic: opj_image_comp_t = zi();
    let mut oc: opj_image_comp_t = zi();
    let mut src: [i32; 24] = kani::any();
    let mut dst: [i32; 24] = kani::any();
    let junk: [i32; 24] = kani::any(); // what fresh memory holds
    unsafe { NEW = junk; GIVEN = 0; }
    let dst0 = dst;
    let src0 = src;
    // with whole tiles, the samples are stored at the pitch of the largest resolution decoded
    let pitch = if c.whole { (c.x1 - c.x0) as usize + 1 } else { (c.x1 - c.x0) as usize };
    ic.resno_decoded = if c.whole { 0 } else { 1 };
    let r = &mut res[ic.resno_decoded as usize];
    if c.whole { r.x0 = c.x0; r.y0 = c.y0; r.x1 = c.x1; r.y1 = c.y1; }
    else { r.win_x0 = c.x0 as u32; r.win_y0 = c.y0 as u32; r.win_x1 = c.x1 as u32; r.win_y1 = c.y1 as u32; }
    if c.whole { res[1].x0 = 2 * c.x0; res[1].x1 = 2 * c.x0 + pitch as i32; tilec.data = src.as_mut_ptr(); } else { tilec.data_win = src.as_mut_ptr(); }
    tilec.minimum_num_resolutions = 2;
    tilec.resolutions = res.as_mut_ptr();
    tile.comps = &mut tilec;
    timg.tiles = &mut tile;
    tcd.tcd_image = &mut timg;
    tcd.whole_tile_decoding = c.whole as i32;
    img.numcomps = 1;
    img.comps = &mut ic;
    tcd.image = &mut *img;
    oc.x0 = c.ox; oc.y0 = c.oy; oc.w = c.w; oc.h = c.h; oc.factor = c.f;
    if c.have { oc.data = dst.as_mut_ptr(); }
    out.numcomps = 1;
    out.comps = &mut oc;
    let ok = opj_j2k_update_image_data(&mut tcd, &mut out) != 0;
    // the output component begins at ceil(origin / 2^f) of its own grid
    let (dx0, dy0) = (cs(c.ox, c.f) as i32, cs(c.oy, c.f) as i32);
    let (dx1, dy1) = (dx0 + c.w as i32, dy0 + c.h as i32);
    let meets = c.x0 <= dx1 && dx0 <= c.x1 && c.y0 <= dy1 && dy0 <= c.y1;
    assert!(ok == meets);
    assert!(oc.w == c.w && oc.h == c.h && oc.x0 == c.ox && oc.factor == c.f && oc.resno_decoded == ic.resno_decoded);
    if ok {
        let p = oc.data;
        assert!(!p.is_null() && (!c.have || p == dst.as_mut_ptr()));
        // the samples' memory has one owner
        assert!(p != src.as_mut_ptr() || (tilec.data.is_null() && tilec.data_win.is_null()));
        if !c.have && p != src.as_mut_ptr() { assert!(unsafe { GIVEN } == (c.w * c.h * 4) as usize); }
        let mut y = dy0;
        while y < dy1 {
            let mut x = dx0;
            while x < dx1 {
                let k = ((y - dy0) * c.w as i32 + x - dx0) as usize;
                let inside = c.x0 <= x && x < c.x1 && c.y0 <= y && y < c.y1;
                let want = if inside { src0[(y - c.y0) as usize * pitch + (x - c.x0) as usize] } else if c.have { dst0[k] } else { 0 };
                assert!(unsafe { *p.add(k) } == want);
                x += 1;
            }
            y += 1;
        }
        let mut k = (c.w * c.h) as usize;
        while k < 24 {
            assert!(dst[k] == dst0[k] && (p == src.as_mut_ptr() || c.have || unsafe { NEW[k] } == junk[k]));
            k += 1;
        }
    } else {
        assert!(oc.data.is_null() || oc.data == dst.as_mut_ptr());
        let mut k = 0;
        while k < 24 { assert!(dst[k] == dst0[k]); k += 1; }
    }
    kani::cover!(src0[0] == 3 && dst0[1] == -4);
}
macro_rules! land { ($($n:ident [$($c:expr),*];)*) => { $(
    #[kani::proof]
    #[kani::unwind(26)]
    #[kani::stub(opj_image_data_alloc, fresh)]
    fn $n() { $( let c = $c; landed(Case { whole: c.0, x0: c.1 .0, y0: c.1 .1, x1: c.1 .2, y1: c.1 .3, ox: c.2 .0, oy: c.2 .1, w: c.2 .2, h: c.2 .3, f: c.3, have: c.4 }); )* }
)* } }
//@ land_inside: bounded(3 placements) | fns=opj_j2k_update_image_data | what=the samples of a tile that lies inside the decoded area land at its place in the output component, and everything else there stays as it was (or zero, when the output is new)
//@ land_larger: bounded(3 placements) | fns=opj_j2k_update_image_data | what=of a tile larger than the decoded area exactly the area is taken
//@ land_across: bounded(4 placements) | fns=opj_j2k_update_image_data | what=of a tile that overlaps the area at a corner exactly the common part is taken
//@ land_exact: bounded(4 placements) | fns=opj_j2k_update_image_data | what=a tile that is the area becomes the output, handed over or copied
//@ land_rows: bounded(4 placements) | fns=opj_j2k_update_image_data | what=of a tile as wide or as high as the area but not the same, exactly the common rows or columns are taken into a new output
//@ land_beside: bounded(4 placements) | fns=opj_j2k_update_image_data | what=a tile beside the area is refused and changes nothing
land! {
    land_inside [(true, (3, 5, 5, 7), (1, 4, 5, 4), 0, true), (true, (3, 5, 5, 7), (1, 4, 5, 4), 0, false), (false, (3, 3, 6, 5), (5, 6, 4, 3), 1, false)];
    land_larger [(true, (2, 2, 6, 6), (3, 3, 2, 2), 0, false), (false, (2, 2, 6, 6), (5, 5, 2, 3), 1, false), (true, (2, 2, 6, 6), (3, 3, 3, 3), 0, true)];
    land_across [(true, (2, 2, 5, 5), (3, 1, 3, 3), 0, false), (false, (2, 2, 5, 5), (1, 3, 3, 3), 0, true), (true, (4, 4, 6, 6), (5, 5, 3, 3), 1, false), (false, (2, 2, 4, 4), (11, 11, 3, 3), 2, true)];
    land_exact [(false, (2, 2, 6, 5), (2, 2, 4, 3), 0, false), (false, (2, 2, 6, 5), (3, 4, 4, 3), 1, false), (true, (2, 2, 6, 5), (2, 2, 4, 3), 0, false), (false, (2, 2, 6, 5), (2, 2, 4, 3), 0, true)];
    land_rows [(false, (2, 2, 6, 6), (2, 3, 4, 2), 0, false), (false, (2, 3, 6, 5), (2, 2, 4, 4), 0, false), (false, (2, 2, 6, 5), (3, 2, 3, 3), 0, false), (false, (2, 2, 6, 6), (2, 2, 4, 3), 0, false)];
    land_beside [(true, (2, 2, 4, 4), (6, 2, 2, 2), 0, true), (true, (6, 2, 8, 4), (2, 2, 2, 2), 0, true), (false, (2, 2, 4, 4), (2, 6, 2, 2), 0, false), (false, (2, 6, 4, 8), (2, 2, 2, 2), 0, true)];
}

// ---- a single tile as the image
static mut OUTIMG: *mut opj_image = core::ptr::null_mut();
static mut STEPS: [i32; 2] = [0; 2]; // what setting up and running the decoder answer
static mut COPIED: Option<(u32, u32, u32, u32, u32, u32)> = None;
static mut RAN: u32 = 0;
static mut GONE: u32 = 0;
fn image0() -> *mut opj_image { unsafe { OUTIMG } }
fn gone(_: *mut opj_image) { unsafe { GONE += 1; } }
fn header(s: *const opj_image, d: *mut opj_image) {
    unsafe {
        assert!(d == OUTIMG);
        let c = &*(*s).comps;
        COPIED = Some(((*s).x0, (*s).y0, (*s).x1, (*s).y1, c.w, c.h));
    }
}
fn set_up(j: &mut opj_j2k, _: &mut opj_j2k_proc_list_t, _: &mut opj_event_mgr) -> i32 {
    unsafe {
        assert!(RAN == 0 && COPIED.is_some() && j.m_output_image == OUTIMG);
        RAN = 1;
        STEPS[0]
    }
}
fn run(_: &mut opj_j2k, _: &mut opj_j2k_proc_list_t, _: &mut Stream, _: &mut opj_event_mgr) -> i32 {
    unsafe {
        assert!(RAN == 1 && STEPS[0] != 0);
        RAN = 2;
        STEPS[1]
    }
}
fn moved(_: &mut opj_j2k, _: &mut opj_image) -> i32 {
    unsafe {
        assert!(RAN == 2 && STEPS[1] != 0);
        RAN = 3;
        1
    }
}
fn one_tile(tw: u32, th: u32, k: u32, extra: bool) -> bool {
    let (mut j, mut pi, mut out, mut o, mut old): (M<opj_j2k>, M<opj_image_t>, M<opj_image_t>, M<opj_image_t>, M<opj_image_t>) = (zi(), zi(), zi(), zi(), zi());
    let (mut pc, mut oc): (opj_image_comp_t, [opj_image_comp_t; 2]) = (zi(), zi());
    let mut m: M<opj_event_mgr> = zi();
    let mut st: M<Stream> = zi(); // handed on only
    let d: opj_j2k_dec_t = zi();
    j.m_specific_param = C2RustUnnamed_2 { m_decoder: d };
    let (x0, y0, x1, y1): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let (tx0, ty0, tdx, tdy): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    // C12 (siz), and opj_j2k_update_image_dimensions refuses larger images
    kani::assume(x0 < x1 && y0 < y1 && tdx > 0 && tdy > 0 && x1 <= i32::MAX as u32 && y1 <= i32::MAX as u32);
    kani::assume(tx0 <= x0 && ty0 <= y0 && tx0 as u64 + tdx as u64 > x0 as u64 && ty0 as u64 + tdy as u64 > y0 as u64);
    kani::assume(tx0 as u64 + (tw as u64 - 1) * (tdx as u64) < x1 as u64 && ty0 as u64 + (th as u64 - 1) * (tdy as u64) < y1 as u64);
    j.m_cp.tx0 = tx0; j.m_cp.ty0 = ty0; j.m_cp.tdx = tdx; j.m_cp.tdy = tdy; j.m_cp.tw = tw; j.m_cp.th = th;
    pi.x0 = x0; pi.y0 = y0; pi.x1 = x1; pi.y1 = y1;
    pi.numcomps = 1;
    pc.factor = 3;
    pi.comps = &mut pc;
    j.m_private_image = &mut *pi;
    if extra { j.m_output_image = &mut *old; }
    (oc[0].dx, oc[0].dy) = (2, 3);
    oc[0].factor = 9;
    out.numcomps = if extra { 2 } else { 1 };
    out.comps = oc.as_mut_ptr();
    unsafe {
        OUTIMG = &mut *o;
        STEPS = [kani::any(), kani::any()];
        COPIED = None; RAN = 0; GONE = 0;
        kani::assume((STEPS[0] == 0 || STEPS[0] == 1) && (STEPS[1] == 0 || STEPS[1] == 1));
    }
    let ok = opj_j2k_get_tile(&mut j, &mut st, &mut out, &mut m, k) != 0;
    unsafe {
        if k >= tw * th {
            assert!(!ok && RAN == 0 && COPIED.is_none() && out.x1 == 0);
            return true;
        }
        assert!(ok == (STEPS == [1, 1]) && RAN == if STEPS[0] == 0 { 1 } else if STEPS[1] == 0 { 2 } else { 3 });
        assert!(GONE == extra as u32 + (RAN == 2) as u32 && j.m_private_image.is_null() == (RAN == 2));
        let (p, q) = ((k % tw) as u64, (k / tw) as u64);
        let a = |o: u32, t: u32, n: u64, d: u32| (t as u64 + n * d as u64).max(o as u64) as u32;
        let b = |o: u32, t: u32, n: u64, d: u32| (t as u64 + (n + 1) * d as u64).min(o as u64) as u32;
        assert!(out.x0 == a(x0, tx0, p, tdx) && out.y0 == a(y0, ty0, q, tdy));
        assert!(out.x1 == b(x1, tx0, p, tdx) && out.y1 == b(y1, ty0, q, tdy));
        let c = &oc[0];
        assert!(c.factor == 3 && c.dx == 2 && c.dy == 3 && c.x0 == cdiv(out.x0, 2) && c.y0 == cdiv(out.y0, 3));
        assert!(c.w == (cs(cdiv(out.x1, 2), 3) - cs(cdiv(out.x0, 2), 3)) as u32 && c.h == (cs(cdiv(out.y1, 3), 3) - cs(cdiv(out.y0, 3), 3)) as u32);
        assert!(out.numcomps == 1 && COPIED == Some((out.x0, out.y0, out.x1, out.y1, c.w, c.h)));
        assert!(j.m_output_image == OUTIMG && j.m_specific_param.m_decoder.m_tile_ind_to_dec == k as i32);
        ok && out.x0 > x0 && out.x1 < x1
    }
}
macro_rules! tiles { ($($n:ident $tw:literal $th:literal $k:literal $e:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(14)]
    #[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
    #[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
    #[kani::stub(crate::math::opj_uint_ceildiv, cdiv)]
    #[kani::stub(crate::math::opj_int_ceildiv, cdiv_i)]
    #[kani::stub(crate::image::opj_image_create0, image0)]
    #[kani::stub(crate::image::opj_image_destroy, gone)]
    #[kani::stub(crate::image::opj_copy_image_header, header)]
    #[kani::stub(opj_j2k_setup_decoding_tile, set_up)]
    #[kani::stub(opj_j2k_exec, run)]
    #[kani::stub(opj_j2k_move_data_from_codec_to_output_image, moved)]
    fn $n() { let p = one_tile($tw, $th, $k, $e); kani::cover!(p || $tw == 1); }
)* } }
//@ one_tile_inner: bounded(tile 7 of a grid of 5 x 2; one component with subsampling 2 x 3, reduction 3) | fns=opj_j2k_get_tile | what=a tile decoded on its own is an image whose area is the tile's, clipped to the image, and whose component has the extent of that area; the tile is then decoded and its samples moved, in this order, and a failure is reported; any image and tile position and size
//@ one_tile_only: bounded(the only tile) | fns=opj_j2k_get_tile | what=the same when the tile is larger than the image
//@ one_tile_none: bounded(tile 10 of a grid of 5 x 2) | fns=opj_j2k_get_tile | what=a tile that does not exist is refused
tiles! {
    one_tile_inner 5 2 7 true;
    one_tile_only 1 1 0 false;
    one_tile_none 5 2 10 false;
}

// ---- handing the decoded samples to the caller
static mut FREED: [*mut core::ffi::c_void; 6] = [core::ptr::null_mut(); 6];
static mut NFREED: usize = 0;
fn freed(p: *mut core::ffi::c_void) {
    unsafe {
        if p.is_null() { return; }
        FREED[NFREED] = p;
        NFREED += 1;
    }
}
fn handed(order: &[u32], old: bool) {
    let (mut j, mut o, mut out): (M<opj_j2k>, M<opj_image_t>, M<opj_image_t>) = (zi(), zi(), zi());
    let mut oc: [opj_image_comp_t; 3] = zi();
    let mut samples = [0i32; 6];
    let s = samples.as_mut_ptr();
    let mut want = [0u32; 3];
    let mut n = 0;
    while n < order.len() { want[n] = order[n]; n += 1; }
    let mut d: opj_j2k_dec_t = zi();
    d.m_numcomps_to_decode = n as u32;
    if n > 0 { d.m_comps_indices_to_decode = want.as_mut_ptr(); }
    j.m_specific_param = C2RustUnnamed_2 { m_decoder: d };
    j.m_output_image = &mut *o;
    o.numcomps = 3;
    o.comps = oc.as_mut_ptr();
    out.numcomps = 3;
    unsafe {
        FREED = [core::ptr::null_mut(); 6];
        NFREED = 0;
        let c = opj_calloc(3, core::mem::size_of::<opj_image_comp_t>()) as *mut opj_image_comp_t;
        kani::assume(!c.is_null());
        out.comps = c;
        let mut k = 0;
        while k < 3 {
            oc[k].resno_decoded = kani::any();
            oc[k].w = kani::any();
            oc[k].prec = kani::any();
            let decoded = n == 0 || want[0] == k as u32 && n > 0 || want[1] == k as u32 && n > 1 || want[2] == k as u32 && n > 2;
            if decoded { oc[k].data = s.add(k); }
            (*c.add(k)).w = oc[k].w;
            (*c.add(k)).prec = oc[k].prec;
            if old { (*c.add(k)).data = s.add(3 + k); }
            k += 1;
        }
        let was = oc;
        let ok = opj_j2k_move_data_from_codec_to_output_image(&mut j, &mut out) != 0;
        if !ok {
            assert!(n > 0 && j.m_private_image.is_null()); // out of memory
        } else {
            assert!(out.numcomps as usize == if n == 0 { 3 } else { n } && o.numcomps == 3);
            let r = out.comps;
            k = 0;
            while k < out.numcomps as usize {
                let f = if n == 0 { k } else { want[k] as usize };
                let c = &*r.add(k);
                assert!(c.data == s.add(f) && c.resno_decoded == was[f].resno_decoded && c.w == was[f].w && c.prec == was[f].prec);
                k += 1;
            }
            k = 0;
            while k < 3 { assert!(oc[k].data.is_null()); k += 1; }
            assert!(NFREED == if old { 3 } else { 0 });
            k = 0;
            while k < NFREED { assert!(FREED[k] == s.add(3 + k) as *mut core::ffi::c_void); k += 1; }
            opj_free(r as *mut core::ffi::c_void);
        }
    }
}
//@ samples_handed_over: bounded(3 components; all, components 2 and 0, or component 1 decoded) | fns=opj_j2k_move_data_from_codec_to_output_image | what=the caller's image gets the samples and the resolution of each component, or exactly of the components asked for in the order asked for, the samples it had are released once, and the decoder keeps none
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(crate::image::opj_image_data_free, freed)]
fn samples_handed_over() {
    handed(&[], true);
    handed(&[2, 0], true);
    handed(&[1], false);
    kani::cover!(true);
}
