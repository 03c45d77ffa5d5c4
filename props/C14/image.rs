// Contracts of the image structure: its components' extents follow from the image and tile grid
// (ISO/IEC 15444-1 B.2, B.3), and creating and copying images gives independent, complete ones.
fn z<T>() -> T {
    unsafe { core::mem::zeroed() }
}
// ceil(a / b) as a function of which only that it is one is used; that it is the quotient rounded
// up is C05's contract.
static mut SEEN: [(u32, u32, u32); 16] = [(0, 0, 0); 16];
static mut NSEEN: usize = 0;
fn cdiv(a: u32, b: u32) -> u32 {
    assert!(b > 0);
    unsafe {
        let mut k = 0;
        while k < NSEEN {
            if SEEN[k].0 == a && SEEN[k].1 == b {
                return SEEN[k].2;
            }
            k += 1;
        }
        assert!(NSEEN < 16);
        let r = kani::any();
        SEEN[NSEEN] = (a, b, r);
        NSEEN += 1;
        r
    }
}
fn cshift(a: u32, s: u32) -> u32 {
    ((a as u64 + (1u64 << s) - 1) >> s) as u32
}

fn header_update(tw: u32, th: u32, n: u32, sub: Option<[(u32, u32, u32); 2]>) {
    let mut img: core::mem::ManuallyDrop<opj_image_t> = z();
    let mut comps: [opj_image_comp_t; 2] = z();
    let mut cp: opj_cp = z();
    let (x0, y0, x1, y1): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let (tx0, ty0, tdx, tdy): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    // what a SIZ segment guarantees (C12)
    kani::assume(x0 < x1 && y0 < y1 && tdx > 0 && tdy > 0);
    kani::assume(tx0 <= x0 && ty0 <= y0);
    kani::assume(tx0 as u64 + tdx as u64 > x0 as u64 && ty0 as u64 + tdy as u64 > y0 as u64);
    // the grid covers the image: its last tile begins inside it
    let last = |t0: u32, td: u32, n: u32| t0 as u64 + td as u64 * (n as u64 - 1);
    kani::assume(last(tx0, tdx, tw) < x1 as u64 && last(ty0, tdy, th) < y1 as u64);
    img.x0 = x0;
    img.y0 = y0;
    img.x1 = x1;
    img.y1 = y1;
    img.numcomps = n;
    img.comps = comps.as_mut_ptr();
    let mut k = 0;
    while k < 2 {
        let c = &mut comps[k];
        (c.dx, c.dy, c.factor) = match sub {
            Some(s) => s[k],
            None => (kani::any(), kani::any(), kani::any()),
        };
        c.prec = kani::any();
        c.w = 77;
        kani::assume(c.dx > 0 && c.dx < 256 && c.dy > 0 && c.dy < 256 && c.factor < 32);
        k += 1;
    }
    let old = comps;
    cp.tx0 = tx0;
    cp.ty0 = ty0;
    cp.tdx = tdx;
    cp.tdy = tdy;
    cp.tw = tw;
    cp.th = th;
    opj_image_comp_header_update(&mut *img, &cp);
    let ax1 = (last(tx0, tdx, tw) + tdx as u64).min(x1 as u64) as u32;
    let ay1 = (last(ty0, tdy, th) + tdy as u64).min(y1 as u64) as u32;
    let mut k = 0;
    while k < 2 {
        let (c, o) = (&comps[k], &old[k]);
        assert!(c.dx == o.dx && c.dy == o.dy && c.factor == o.factor && c.prec == o.prec);
        if (k as u32) < n {
            assert!(c.x0 == cdiv(x0, o.dx) && c.y0 == cdiv(y0, o.dy));
            assert!(c.w == cshift(cdiv(ax1, o.dx).wrapping_sub(c.x0), o.factor));
            assert!(c.h == cshift(cdiv(ay1, o.dy).wrapping_sub(c.y0), o.factor));
        } else {
            assert!(c.w == 77 && c.h == 0 && c.x0 == 0);
        }
        k += 1;
    }
    assert!(img.x0 == x0 && img.y0 == y0 && img.x1 == x1 && img.y1 == y1);
    kani::cover!(ax1 < x1 && ay1 == y1 && comps[0].w > 3);
}
//@ header_update_1: complete | fns=opj_image_comp_header_update | what=a component's origin and size are those of the part of the image area the tile grid covers, on the component's own grid and at the reduced resolution; one tile, any image and tile position and size, subsampling and reduction
//@ header_update_n: bounded(grids of 300 x 2 tiles) | fns=opj_image_comp_header_update | what=the same for several tiles
//@ header_update_2: bounded(grid of 3 x 5 tiles; two components with subsampling 1 x 1 and 2 x 3, reduction 0 and 4) | fns=opj_image_comp_header_update | what=the same for each of several components
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(crate::math::opj_uint_ceildiv, cdiv)]
fn header_update_1() {
    header_update(1, 1, 1, None);
}
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(crate::math::opj_uint_ceildiv, cdiv)]
fn header_update_n() {
    header_update(300, 2, 1, None);
}

#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(crate::math::opj_uint_ceildiv, cdiv)]
fn header_update_2() {
    header_update(3, 5, 2, Some([(1, 1, 0), (2, 3, 4)]));
}

fn parm(w: u32, h: u32) -> opj_image_comptparm {
    opj_image_comptparm { dx: kani::any(), dy: kani::any(), w, h, x0: kani::any(), y0: kani::any(), prec: kani::any(), bpp: kani::any(), sgnd: kani::any() }
}

//@ image_create: bounded(two components of 3 x 2 and 1 x 1 samples) | fns=opj_image_create,opj_image_comp::alloc_data,opj_image::alloc_comps,opj_image_destroy | what=a new image has the components asked for, each with its own samples, all zero; destroying it frees each exactly once
#[kani::proof]
#[kani::unwind(8)]
fn image_create() {
    let mut p = [parm(3, 2), parm(1, 1)];
    kani::cover!(p[0].dx == 2 && p[1].sgnd == 1);
    unsafe {
        let i = opj_image_create(2, p.as_mut_ptr(), OPJ_CLRSPC_GRAY);
        if !i.is_null() {
            assert!((*i).numcomps == 2 && (*i).color_space == OPJ_CLRSPC_GRAY && (*i).icc_profile_buf.is_null() && (*i).icc_profile_len == 0);
            let c = (*i).comps().unwrap();
            assert!(c.len() == 2);
            let mut k = 0;
            while k < 2 {
                assert!(c[k].dx == p[k].dx && c[k].dy == p[k].dy && c[k].w == p[k].w && c[k].h == p[k].h);
                assert!(c[k].x0 == p[k].x0 && c[k].y0 == p[k].y0 && c[k].prec == p[k].prec && c[k].sgnd == p[k].sgnd);
                let d = c[k].data().unwrap();
                assert!(d.len() == (p[k].w * p[k].h) as usize);
                let mut s = 0;
                while s < d.len() {
                    assert!(d[s] == 0);
                    s += 1;
                }
                k += 1;
            }
            assert!(c[0].data != c[1].data);
        }
        opj_image_destroy(i);
        opj_image_destroy(core::ptr::null_mut());
    }
}

//@ header_copy: bounded(two components; an ICC profile of 3 bytes or none; a destination that is empty or has a component with samples) | fns=opj_copy_image_header,opj_image::copy_icc_profile,opj_image::clear_comps,opj_image::alloc_comps | what=copying a header copies the area, colour space, colour profile and every component except its samples, releases the samples the destination had and leaves the source as it was
#[kani::proof]
#[kani::unwind(8)]
fn header_copy() {
    let (mut src, mut dst): (core::mem::ManuallyDrop<opj_image_t>, core::mem::ManuallyDrop<opj_image_t>) = (z(), z());
    let mut comps: [opj_image_comp_t; 2] = z();
    let mut icc: [u8; 3] = kani::any();
    let mut samples = [7i32; 2];
    comps[0].dx = kani::any();
    comps[0].w = kani::any();
    comps[0].x0 = kani::any();
    comps[0].factor = kani::any();
    comps[0].prec = kani::any();
    comps[0].alpha = kani::any();
    comps[0].data = samples.as_mut_ptr();
    comps[1].dy = kani::any();
    comps[1].h = kani::any();
    comps[1].y0 = kani::any();
    comps[1].sgnd = kani::any();
    comps[1].resno_decoded = kani::any();
    src.x0 = kani::any();
    src.y0 = kani::any();
    src.x1 = kani::any();
    src.y1 = kani::any();
    src.numcomps = 2;
    src.color_space = OPJ_CLRSPC_SYCC;
    src.comps = comps.as_mut_ptr();
    let with_icc: bool = kani::any();
    if with_icc {
        src.icc_profile_buf = icc.as_mut_ptr();
        src.icc_profile_len = 3;
    }
    kani::cover!(with_icc && icc[2] == 9);
    unsafe {
        if kani::any() {
            kani::cover!(true);
            assert!(dst.alloc_comps(1, true));
            let c = &mut dst.comps_mut().unwrap()[0];
            c.w = 2;
            c.h = 1;
            assert!(c.alloc_data());
        }
        opj_copy_image_header(&*src, &mut *dst);
        assert!(dst.x0 == src.x0 && dst.y0 == src.y0 && dst.x1 == src.x1 && dst.y1 == src.y1);
        assert!(dst.color_space == OPJ_CLRSPC_SYCC && dst.numcomps == 2 && src.numcomps == 2);
        assert!(dst.comps != src.comps && comps[0].data == samples.as_mut_ptr());
        let d = dst.comps().unwrap();
        let mut k = 0;
        while k < 2 {
            let (a, b) = (&d[k], &comps[k]);
            assert!(a.dx == b.dx && a.dy == b.dy && a.w == b.w && a.h == b.h && a.x0 == b.x0 && a.y0 == b.y0);
            assert!(a.prec == b.prec && a.sgnd == b.sgnd && a.factor == b.factor && a.alpha == b.alpha && a.resno_decoded == b.resno_decoded);
            assert!(a.data.is_null());
            k += 1;
        }
        match dst.icc_profile() {
            Some(p) => assert!(with_icc && p.len() == 3 && p[0] == icc[0] && p[1] == icc[1] && p[2] == icc[2] && dst.icc_profile_buf != src.icc_profile_buf),
            None => assert!(!with_icc),
        }
        dst.clear_comps();
        dst.clear_icc_profile();
        dst.clear_comps(); // harmless
    }
}
