//@@include props/C10/spec.inc
struct Own { pi: core::mem::ManuallyDrop<opj_pi_iterator_t>, comps: [opj_pi_comp_t; 2], res: [[opj_pi_resolution_t; MR]; 2], inc: [i16; MAXP + 4] }
/// the iterator opj_pi_create_decode() builds for that tile (fields checked by decode_setup)
unsafe fn setup(o: &mut Own, t: &Tile, prg: i32) {
    let mut mp = 0;
    let mut c = 0;
    while c < t.nc {
        o.comps[c].dx = t.c[c].dx; o.comps[c].dy = t.c[c].dy; o.comps[c].numresolutions = t.c[c].nr;
        o.comps[c].resolutions = core::ptr::addr_of_mut!(o.res[c]) as *mut opj_pi_resolution_t;
        let mut r = 0;
        while r < t.c[c].nr {
            let (w, h) = nprec(t, c, r);
            o.res[c][r as usize] = opj_pi_resolution_t { pdx: t.c[c].pd[r as usize].0, pdy: t.c[c].pd[r as usize].1, pw: w, ph: h };
            if w * h > mp { mp = w * h; }
            r += 1;
        }
        c += 1;
    }
    let p = &mut o.pi;
    p.comps = core::ptr::addr_of_mut!(o.comps) as *mut opj_pi_comp_t;
    p.numcomps = t.nc as u32;
    p.include = core::ptr::addr_of_mut!(o.inc) as *mut i16;
    p.step_p = 1; p.step_c = mp; p.step_r = mp * t.nc as u32; p.step_l = p.step_r * nres(t);
    p.include_size = p.step_l * t.lay;
    assert!(p.include_size as usize <= MAXP + 4);
    p.tx0 = t.x0; p.ty0 = t.y0; p.tx1 = t.x1; p.ty1 = t.y1;
    p.first = 1;
    p.poc.prg = prg;
    p.poc.resno1 = nres(t); p.poc.compno1 = t.nc as u32; p.poc.layno1 = t.lay; p.poc.precno1 = mp;
}
fn run(t: &Tile, prg: i32) {
    let want = spec(t, prg);
    assert!(want.n == total(t)); // the standard's order contains every packet
    let mut o: Own = zi();
    unsafe { setup(&mut o, t, prg); }
    let mut i = 0;
    while i < want.n {
        let r = unsafe { opj_pi_next(&mut *o.pi) };
        assert!(r == 1);
        assert!((o.pi.layno, o.pi.resno, o.pi.compno, o.pi.precno) == want.p[i]);
        i += 1;
    }
    assert!(unsafe { opj_pi_next(&mut *o.pi) } == 0);
    kani::cover!(i == want.n);
}
const fn tc(dx: u32, dy: u32, nr: u32, pd: [(u32, u32); MR]) -> Tc { Tc { dx, dy, nr, pd } }
const N: Tc = tc(1, 1, 1, [(0, 0); MR]);
// T0: 4:2:0-like pair, odd origin; T1: factors 2 and 3 with 1x1-dominated precincts; T2: precinct
// shapes differing per resolution; T3: resolutions of different number, one empty resolution
const T0: Tile = Tile { x0: 3, y0: 1, x1: 9, y1: 7, lay: 1, nc: 2, c: [tc(1, 1, 2, [(2, 2), (3, 3), (0, 0)]), tc(2, 2, 2, [(1, 1), (2, 3), (0, 0)])] };
const T1: Tile = Tile { x0: 5, y0: 3, x1: 11, y1: 7, lay: 1, nc: 2, c: [tc(2, 3, 1, [(1, 1), (0, 0), (0, 0)]), tc(3, 2, 1, [(0, 1), (0, 0), (0, 0)])] };
const T2: Tile = Tile { x0: 0, y0: 2, x1: 7, y1: 8, lay: 2, nc: 1, c: [tc(1, 1, 3, [(2, 1), (1, 3), (3, 2)]), N] };
const T3: Tile = Tile { x0: 9, y0: 9, x1: 10, y1: 15, lay: 2, nc: 2, c: [tc(1, 1, 3, [(1, 1), (1, 1), (2, 2)]), tc(1, 2, 2, [(2, 1), (2, 2), (0, 0)])] };

//@ lrcp_order: bounded(four tiles of up to 7x6 with subsampling 1..3, 1..3 resolutions and unequal precincts) | fns=pi::opj_pi_next,opj_pi_next_lrcp | what=every packet of the tile exactly once, in layer-resolution-component-precinct order
#[kani::proof]
#[kani::unwind(62)]
fn lrcp_order() { run(&T0, 0); run(&T1, 0); run(&T2, 0); run(&T3, 0); }
//@ rlcp_order: bounded(four tiles of up to 7x6 with subsampling 1..3, 1..3 resolutions and unequal precincts) | fns=pi::opj_pi_next,opj_pi_next_rlcp | what=every packet of the tile exactly once, in resolution-layer-component-precinct order
#[kani::proof]
#[kani::unwind(62)]
fn rlcp_order() { run(&T0, 1); run(&T1, 1); run(&T2, 1); run(&T3, 1); }
//@ rpcl_order: bounded(four tiles of up to 7x6 with subsampling 1..3, 1..3 resolutions and unequal precincts) | fns=pi::opj_pi_next,opj_pi_next_rpcl | what=every packet of the tile exactly once, in resolution-position-component-layer order
#[kani::proof]
#[kani::unwind(62)]
fn rpcl_order() { run(&T0, 2); run(&T1, 2); run(&T2, 2); run(&T3, 2); }
//@ pcrl_order: bounded(four tiles of up to 7x6 with subsampling 1..3, 1..3 resolutions and unequal precincts) | fns=pi::opj_pi_next,opj_pi_next_pcrl | what=every packet of the tile exactly once, in position-component-resolution-layer order
#[kani::proof]
#[kani::unwind(62)]
fn pcrl_order() { run(&T0, 3); run(&T1, 3); run(&T2, 3); run(&T3, 3); }
//@ cprl_order: bounded(four tiles of up to 7x6 with subsampling 1..3, 1..3 resolutions and unequal precincts) | fns=pi::opj_pi_next,opj_pi_next_cprl | what=every packet of the tile exactly once, in component-position-resolution-layer order
#[kani::proof]
#[kani::unwind(62)]
fn cprl_order() { run(&T0, 4); run(&T1, 4); run(&T2, 4); run(&T3, 4); }
/// after `s` packets, and with any set of packets already taken (by other progression volumes),
/// the next packet is the first one of the order that lies inside the volume and is still free
fn step(t: &Tile, prg: i32, s: usize, v: (u32, u32, u32, u32, u32, u32)) {
    let all = spec(t, prg);
    let mut o: Own = zi();
    unsafe { setup(&mut o, t, prg); }
    o.pi.poc.resno0 = v.0; o.pi.poc.resno1 = v.1; o.pi.poc.compno0 = v.2; o.pi.poc.compno1 = v.3; o.pi.poc.layno0 = v.4; o.pi.poc.layno1 = v.5;
    let inside = |p: P| p.1 >= v.0 && p.1 < v.1 && p.2 >= v.2 && p.2 < v.3 && p.0 >= v.4 && p.0 < v.5;
    let (sl, sr, sc) = (o.pi.step_l, o.pi.step_r, o.pi.step_c);
    let idx = |p: P| (p.0 * sl + p.1 * sr + p.2 * sc + p.3) as usize;
    let mut i = 0;
    let mut j = 0; // list position after the s-th packet of the volume
    while i < s {
        assert!(unsafe { opj_pi_next(&mut *o.pi) } == 1);
        while !inside(all.p[j]) { j += 1; }
        j += 1;
        i += 1;
    }
    let mut taken = [0i16; MAXP + 4];
    let mut k = 0;
    while k < all.n { if kani::any() { taken[idx(all.p[k])] = 1; } k += 1; }
    let mut want: Option<P> = None;
    let mut k = all.n;
    while k > j { k -= 1; if inside(all.p[k]) && taken[idx(all.p[k])] == 0 { want = Some(all.p[k]); } }
    o.inc = taken;
    let r = unsafe { opj_pi_next(&mut *o.pi) };
    kani::cover!(want.is_none());
    kani::cover!(want.is_some());
    match want {
        None => { assert!(r == 0); }
        Some(p) => {
            assert!(r == 1);
            assert!((o.pi.layno, o.pi.resno, o.pi.compno, o.pi.precno) == p);
            taken[idx(p)] = 1;
        }
    }
    let mut k = 0;
    while k < MAXP + 4 { assert!(o.inc[k] == taken[k]); k += 1; }
}
const T4: Tile = Tile { x0: 1, y0: 1, x1: 5, y1: 4, lay: 2, nc: 2, c: [tc(1, 1, 2, [(1, 1), (2, 2), (0, 0)]), tc(2, 1, 1, [(1, 2), (0, 0), (0, 0)])] };
//@ lrcp_step: bounded(one 4x3 tile, two components, two layers, any set of packets taken) | fns=pi::opj_pi_next,opj_pi_next_lrcp | what=next free packet of the progression volume, marked as taken and no other
#[kani::proof]
#[kani::unwind(66)]
fn lrcp_step() { step(&T4, 0, 1, (0, 2, 0, 2, 0, 2)); step(&T4, 0, 0, (1, 2, 0, 1, 1, 2)); }
//@ rlcp_step: bounded(one 4x3 tile, two components, two layers, any set of packets taken) | fns=pi::opj_pi_next,opj_pi_next_rlcp | what=next free packet of the progression volume, marked as taken and no other
#[kani::proof]
#[kani::unwind(66)]
fn rlcp_step() { step(&T4, 1, 1, (0, 2, 0, 2, 0, 2)); step(&T4, 1, 0, (1, 2, 0, 1, 1, 2)); }
//@ rpcl_step: bounded(one 4x3 tile, two components, two layers, any set of packets taken) | fns=pi::opj_pi_next,opj_pi_next_rpcl | what=next free packet of the progression volume, marked as taken and no other
#[kani::proof]
#[kani::unwind(66)]
fn rpcl_step() { step(&T4, 2, 2, (0, 2, 0, 2, 0, 2)); step(&T4, 2, 0, (1, 2, 0, 1, 1, 2)); }
//@ pcrl_step: bounded(one 4x3 tile, two components, two layers, any set of packets taken) | fns=pi::opj_pi_next,opj_pi_next_pcrl | what=next free packet of the progression volume, marked as taken and no other
#[kani::proof]
#[kani::unwind(66)]
fn pcrl_step() { step(&T4, 3, 2, (0, 2, 0, 2, 0, 2)); step(&T4, 3, 0, (1, 2, 0, 1, 1, 2)); }
//@ cprl_step: bounded(one 4x3 tile, two components, two layers, any set of packets taken) | fns=pi::opj_pi_next,opj_pi_next_cprl | what=next free packet of the progression volume, marked as taken and no other
#[kani::proof]
#[kani::unwind(66)]
fn cprl_step() { step(&T4, 4, 2, (0, 2, 0, 2, 0, 2)); step(&T4, 4, 0, (1, 2, 0, 1, 1, 2)); }
struct Geo { cp: opj_cp_t, tcp: [opj_tcp_t; 3], tccp: [opj_tccp_t; 1], img: core::mem::ManuallyDrop<opj_image_t>, ic: [core::mem::ManuallyDrop<opj_image_comp_t>; 1] }
#[derive(Copy, Clone)]
struct Out { x0: u32, x1: u32, y0: u32, y1: u32, dx: u32, dy: u32, prec: u32, res: u32, q: [u32; 4 * MR] }
/// tile extent (B-7, B-8), precinct counts (B-16) and steps from the coding parameters, for any tile
/// position; `two` = which of the two functions
unsafe fn geometry(dx: u32, dy: u32, nr: u32, tw: u32, tile: u32, all: bool, vert: bool) {
    let mut g: Geo = zi();
    g.cp.tw = tw; g.cp.th = 2; g.cp.tx0 = kani::any(); g.cp.ty0 = kani::any(); g.cp.tdx = kani::any(); g.cp.tdy = kani::any();
    g.img.x0 = kani::any(); g.img.y0 = kani::any(); g.img.x1 = kani::any(); g.img.y1 = kani::any();
    let big = if dx > 1 || nr > 1 { 1u32 << 12 } else { 1u32 << 31 };
    // one axis symbolic, the other a fixed extent of 13 rows or columns starting at 3
    if vert { g.cp.tx0 = 0; g.cp.tdx = 16; g.img.x0 = 3; g.img.x1 = if tile > 0 { 40 } else { 16 }; } else { g.cp.ty0 = 0; g.cp.tdy = 16; g.img.y0 = 3; g.img.y1 = if tile > 0 { 40 } else { 16 }; }
    let (p, q) = (tile % tw, tile / tw);
    // what opj_j2k_read_siz() guarantees: the tile grid starts before the image and the tile meets it
    kani::assume(g.img.x1 < big && g.img.y1 < big && g.cp.tdx > 0 && g.cp.tdy > 0);
    let (ax, ay) = (g.cp.tx0 as u64 + p as u64 * g.cp.tdx as u64, g.cp.ty0 as u64 + q as u64 * g.cp.tdy as u64);
    let (bx, by) = (ax + g.cp.tdx as u64, ay + g.cp.tdy as u64);
    kani::assume(ax < g.img.x1 as u64 && ay < g.img.y1 as u64 && bx > g.img.x0 as u64 && by > g.img.y0 as u64);
    kani::assume(g.img.x0 < g.img.x1 && g.img.y0 < g.img.y1);
    g.img.numcomps = 1;
    g.img.comps = core::ptr::addr_of_mut!(g.ic) as *mut opj_image_comp_t;
    g.ic[0].dx = dx; g.ic[0].dy = dy;
    g.cp.tcps = core::ptr::addr_of_mut!(g.tcp) as *mut opj_tcp_t;
    g.tcp[tile as usize].tccps = core::ptr::addr_of_mut!(g.tccp) as *mut opj_tccp_t;
    g.tccp[0].numresolutions = nr;
    let mut r = 0;
    while r < nr as usize { let (a, b): (u32, u32) = (kani::any(), kani::any()); kani::assume(a <= 15 && b <= 15); let (a, b) = if vert { (2, b) } else { (a, 2) }; g.tccp[0].prcw[r] = a; g.tccp[0].prch[r] = b; r += 1; }
    let mut o: Out = zi();
    let mut rp = core::ptr::addr_of_mut!(o.q) as *mut u32;
    if all {
        opj_get_all_encoding_parameters(&*g.img, &g.cp, tile, &mut o.x0, &mut o.x1, &mut o.y0, &mut o.y1, &mut o.dx, &mut o.dy, &mut o.prec, &mut o.res, &mut rp);
    } else {
        opj_get_encoding_parameters(&*g.img, &g.cp, tile, &mut o.x0, &mut o.x1, &mut o.y0, &mut o.y1, &mut o.dx, &mut o.dy, &mut o.prec, &mut o.res);
    }
    assert!(o.x0 as u64 == ax.max(g.img.x0 as u64) && o.x1 as u64 == bx.min(g.img.x1 as u64));
    assert!(o.y0 as u64 == ay.max(g.img.y0 as u64) && o.y1 as u64 == by.min(g.img.y1 as u64));
    assert!(o.res == nr);
    let mut mp = 0u32;
    let mut r = 0;
    while r < nr as usize {
        let l = nr - 1 - r as u32;
        let n = |a: u32, b: u32, d: u32, e: u32| -> u32 {
            let cp2 = |v: u32, s: u32| (v >> s) + ((v & ((1 << s) - 1)) != 0) as u32;
            let (a, b) = (cp2(((a as u64 + d as u64 - 1) / d as u64) as u32, l), cp2(((b as u64 + d as u64 - 1) / d as u64) as u32, l));
            if a == b { 0 } else { cp2(b, e) - (a >> e) }
        };
        let (w, h) = (n(o.x0, o.x1, dx, g.tccp[0].prcw[r]), n(o.y0, o.y1, dy, g.tccp[0].prch[r]));
        if all { assert!(o.q[4 * r] == g.tccp[0].prcw[r] && o.q[4 * r + 1] == g.tccp[0].prch[r] && o.q[4 * r + 2] == w && o.q[4 * r + 3] == h); }
        let m = w.wrapping_mul(h);
        if m > mp { mp = m; }
        // every precinct boundary of this resolution is a multiple of the position step
        let (sx, sy) = ((dx as u64) << (g.tccp[0].prcw[r] + l), (dy as u64) << (g.tccp[0].prch[r] + l));
        assert!(o.dx != 0 && o.dy != 0 && o.dx as u64 <= sx && o.dy as u64 <= sy);
        if nr == 1 { assert!(o.dx as u64 == sx && o.dy as u64 == sy); }
        r += 1;
    }
    assert!(o.prec == mp);
    kani::cover!(o.prec > 30);
}
// `gcd` is verified on its own (step_divides): here it is replaced by its contract
fn gcd_contract(a: u32, b: u32) -> u32 { if a == 0 { b } else if b == 0 { a } else { let g: u32 = kani::any(); kani::assume(g != 0 && g <= a && g <= b); g } }
//@ tile_geometry: bounded(one resolution; step function by contract, one component, fixed rows) | fns=pi::opj_get_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry() { unsafe { geometry(1, 1, 1, 2, 2, false, false); } }
//@ tile_geometry_all: bounded(one resolution; step function by contract, one component, fixed rows) | fns=pi::opj_get_all_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_all() { unsafe { geometry(1, 1, 1, 2, 2, true, false); } }
//@ tile_geometry_v: bounded(one resolution; step function by contract, one component, fixed columns) | fns=pi::opj_get_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_v() { unsafe { geometry(1, 1, 1, 2, 2, false, true); } }
//@ tile_geometry_all_v: bounded(one resolution; step function by contract, one component, fixed columns) | fns=pi::opj_get_all_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_all_v() { unsafe { geometry(1, 1, 1, 2, 2, true, true); } }
//@ tile_geometry_sub: bounded(subsampling 2x3, one resolution, coordinates below 2^12, one component, fixed rows) | fns=pi::opj_get_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_sub() { unsafe { geometry(2, 3, 1, 1, 0, false, false); } }
//@ tile_geometry_sub_all: bounded(subsampling 2x3, one resolution, coordinates below 2^12, one component, fixed rows) | fns=pi::opj_get_all_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_sub_all() { unsafe { geometry(2, 3, 1, 1, 0, true, false); } }
//@ tile_geometry_sub_v: bounded(subsampling 2x3, one resolution, coordinates below 2^12, one component, fixed columns) | fns=pi::opj_get_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_sub_v() { unsafe { geometry(2, 3, 1, 1, 0, false, true); } }
//@ tile_geometry_sub_all_v: bounded(subsampling 2x3, one resolution, coordinates below 2^12, one component, fixed columns) | fns=pi::opj_get_all_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_sub_all_v() { unsafe { geometry(2, 3, 1, 1, 0, true, true); } }
//@ tile_geometry_res: bounded(two resolutions, coordinates below 2^12, one component, fixed rows) | fns=pi::opj_get_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_res() { unsafe { geometry(1, 1, 2, 1, 0, false, false); } }
//@ tile_geometry_res_all: bounded(two resolutions, coordinates below 2^12, one component, fixed rows) | fns=pi::opj_get_all_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_res_all() { unsafe { geometry(1, 1, 2, 1, 0, true, false); } }
//@ tile_geometry_res_v: bounded(two resolutions, coordinates below 2^12, one component, fixed columns) | fns=pi::opj_get_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_res_v() { unsafe { geometry(1, 1, 2, 1, 0, false, true); } }
//@ tile_geometry_res_all_v: bounded(two resolutions, coordinates below 2^12, one component, fixed columns) | fns=pi::opj_get_all_encoding_parameters | what=tile extent, precinct counts, largest precinct count and position step of any tile below 2^31
#[kani::proof]
#[kani::unwind(4)]
#[kanitool::stub(opj_uint_gcd, gcd_contract)]
fn tile_geometry_res_all_v() { unsafe { geometry(1, 1, 2, 1, 0, true, true); } }
//@ step_divides: bounded(arguments a*2^k and b*2^m with a, b at most 15 and exponents up to 20) | fns=pi::opj_uint_gcd | what=the position step divides both precinct extents
#[kani::proof]
#[kani::unwind(12)]
fn step_divides() {
    let (a, b): (u32, u32) = (kani::any(), kani::any());
    kani::assume(a >= 1 && a <= 15 && b >= 1 && b <= 15);
    let k: u32 = kani::any();
    kani::assume(k <= 20);
    let g = opj_uint_gcd(a << k, b << k);
    assert!(g != 0 && (g >> k) << k == g);
    let h = g >> k;
    assert!(h >= 1 && a % h == 0 && b % h == 0);
    assert!(opj_uint_gcd(0, a << k) == a << k && opj_uint_gcd(a << k, 0) == a << k);
    kani::cover!(h == 3 && a == 9 && b == 12);
}
//@ bad_component: bounded(four invalid component ranges, an empty packet table) | fns=pi::opj_pi_next | what=a progression volume outside the components or the packet table ends the iteration instead of reading out of bounds
#[kani::proof]
#[kani::unwind(66)]
fn bad_component() {
    let mut prg = -1;
    while prg <= 5 {
        let mut o: Own = zi();
        unsafe { setup(&mut o, &T4, prg); }
        let mut k = 0;
        while k < 4 {
            if prg >= 0 && prg <= 4 {
                let bad = [(2, 2), (u32::MAX, 0), (0, 3), (0, u32::MAX)][k];
                o.pi.poc.compno0 = bad.0;
                o.pi.poc.compno1 = bad.1;
            }
            assert!(unsafe { opj_pi_next(&mut *o.pi) } == 0);
            k += 1;
        }
        kani::cover!(prg == 5);
        // a packet table smaller than the volume
        if prg >= 0 && prg <= 4 {
            let mut o: Own = zi();
            unsafe { setup(&mut o, &T4, prg); }
            o.pi.include_size = 0;
            assert!(unsafe { opj_pi_next(&mut *o.pi) } == 0);
        }
        prg += 1;
    }
}
struct Coding { cp: opj_cp_t, tcp: opj_tcp_t, tccp: [opj_tccp_t; 2], img: core::mem::ManuallyDrop<opj_image_t>, ic: [core::mem::ManuallyDrop<opj_image_comp_t>; 2], m: opj_event_mgr }
unsafe fn coding(g: &mut Coding, t: &Tile) {
    let mut c = 0;
    while c < t.nc {
        g.tccp[c].numresolutions = t.c[c].nr;
        g.ic[c].dx = t.c[c].dx; g.ic[c].dy = t.c[c].dy;
        let mut r = 0;
        while r < t.c[c].nr as usize { g.tccp[c].prcw[r] = t.c[c].pd[r].0; g.tccp[c].prch[r] = t.c[c].pd[r].1; r += 1; }
        c += 1;
    }
    g.img.x0 = t.x0; g.img.y0 = t.y0; g.img.x1 = t.x1; g.img.y1 = t.y1;
    g.img.numcomps = t.nc as u32; g.img.comps = core::ptr::addr_of_mut!(g.ic) as *mut opj_image_comp_t;
    g.cp.tw = 1; g.cp.th = 1; g.cp.tdx = t.x1; g.cp.tdy = t.y1;
    g.cp.tcps = core::ptr::addr_of_mut!(g.tcp);
    g.tcp.tccps = core::ptr::addr_of_mut!(g.tccp) as *mut opj_tccp_t;
    g.tcp.numlayers = t.lay;
}
/// the geometry every iterator of the array must carry
unsafe fn check_pi(p: &opj_pi_iterator_t, first: &opj_pi_iterator_t, t: &Tile, lay: u32) {
    let mut mp = 0;
    assert!(p.numcomps == t.nc as u32 && p.first == 1);
    assert!(p.tx0 == t.x0 && p.ty0 == t.y0 && p.tx1 == t.x1 && p.ty1 == t.y1);
    let mut c = 0;
    while c < t.nc {
        let k = &*p.comps.add(c);
        assert!(k.dx == t.c[c].dx && k.dy == t.c[c].dy && k.numresolutions == t.c[c].nr);
        let mut r = 0;
        while r < t.c[c].nr {
            let (w, h) = nprec(t, c, r);
            let q = &*k.resolutions.add(r as usize);
            assert!(q.pdx == t.c[c].pd[r as usize].0 && q.pdy == t.c[c].pd[r as usize].1 && q.pw == w && q.ph == h);
            if w * h > mp { mp = w * h; }
            r += 1;
        }
        c += 1;
    }
    // distinct packets of the tile have distinct slots, shared by all the iterators
    assert!(p.step_p == 1 && p.step_c >= mp && p.step_r >= p.step_c * t.nc as u32 && p.step_l >= p.step_r * nres(t));
    assert!(p.include == first.include && p.include_size == first.include_size && p.include_size >= p.step_l * lay);
    assert!(p.step_l == first.step_l && p.step_r == first.step_r && p.step_c == first.step_c);
    let mut i = 0;
    while i < p.include_size as usize { assert!(*p.include.add(i) == 0); i += 1; }
}
//@ decode_setup: bounded(one 4x3 tile, two components) | fns=pi::opj_pi_create_decode,opj_pi_create,opj_pi_update_decode_not_poc,opj_pi_destroy | what=the iterator covers every layer, resolution, component and precinct of the tile, nothing marked as taken
#[kani::proof]
#[kani::unwind(40)]
fn decode_setup() {
    let mut g: Coding = zi();
    unsafe {
        coding(&mut g, &T4);
        g.tcp.prg = kani::any();
        let p = opj_pi_create_decode(&mut *g.img, &mut g.cp, 0, &mut g.m);
        assert!(!p.is_null());
        let q = &*p;
        check_pi(q, q, &T4, T4.lay);
        assert!(q.poc.prg == g.tcp.prg && q.tp_on == 0);
        assert!(q.poc.resno0 == 0 && q.poc.resno1 == 2 && q.poc.compno0 == 0 && q.poc.compno1 == 2 && q.poc.layno0 == 0 && q.poc.layno1 == T4.lay && q.poc.precno0 == 0);
        opj_pi_destroy(p, 1);
    }
    kani::cover!(true);
}
//@ decode_setup_poc: bounded(one 4x3 tile, two components, two progression volumes) | fns=pi::opj_pi_create_decode,opj_pi_create,opj_pi_update_decode_poc,opj_pi_destroy | what=one iterator per progression volume with the volume of its POC entry, layers limited to the tile's, sharing the packet table
#[kani::proof]
#[kani::unwind(40)]
fn decode_setup_poc() {
    let mut g: Coding = zi();
    unsafe {
        coding(&mut g, &T4);
        g.tcp.POC = true;
        g.tcp.numpocs = 1;
        let mut i = 0;
        while i < 2 {
            let c = &mut g.tcp.pocs[i];
            c.prg = kani::any(); c.resno0 = kani::any(); c.resno1 = kani::any(); c.compno0 = kani::any(); c.compno1 = kani::any(); c.layno1 = kani::any();
            i += 1;
        }
        let p = opj_pi_create_decode(&mut *g.img, &mut g.cp, 0, &mut g.m);
        assert!(!p.is_null());
        let mut i = 0;
        while i < 2 {
            let (q, c) = (&*p.add(i), &g.tcp.pocs[i]);
            check_pi(q, &*p, &T4, T4.lay);
            assert!(q.poc.prg == c.prg && q.tp_on == 0);
            assert!(q.poc.resno0 == c.resno0 && q.poc.resno1 == c.resno1 && q.poc.compno0 == c.compno0 && q.poc.compno1 == c.compno1);
            assert!(q.poc.layno0 == 0 && q.poc.layno1 == c.layno1.min(T4.lay) && q.poc.precno0 == 0);
            i += 1;
        }
        kani::cover!((*p).poc.layno1 == 1);
        opj_pi_destroy(p, 2);
    }
}
//@ encode_setup: bounded(one 4x3 tile, two components) | fns=pi::opj_pi_initialise_encode,opj_pi_create,opj_pi_update_encode_not_poc,opj_pi_destroy | what=the encoder's iterator covers the same tile; the tile's volume is every layer, resolution and component
#[kani::proof]
#[kani::unwind(40)]
fn encode_setup() {
    let mut g: Coding = zi();
    unsafe {
        coding(&mut g, &T4);
        g.tcp.prg = kani::any();
        let tp = true;
        g.cp.m_specific_param.m_enc.m_tp_on = tp;
        let p = opj_pi_initialise_encode(&mut *g.img, &mut g.cp, 0, FINAL_PASS, &mut g.m);
        assert!(!p.is_null());
        (*p).first = 1;
        check_pi(&*p, &*p, &T4, T4.lay);
        assert!((*p).tp_on == tp as u8);
        let c = &g.tcp.pocs[0];
        assert!(c.prg == g.tcp.prg && c.resS == 0 && c.resE == 2 && c.compS == 0 && c.compE == 2 && c.layS == 0 && c.layE == T4.lay && c.prcS == 0);
        assert!(c.txS == T4.x0 && c.txE == T4.x1 && c.tyS == T4.y0 && c.tyE == T4.y1);
        opj_pi_destroy(p, 1);
    }
    kani::cover!(true);
}
