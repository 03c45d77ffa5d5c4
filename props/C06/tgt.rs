// Contracts of tag trees (ISO/IEC 15444-1 B.10.2).
fn mgr() -> opj_event_mgr { opj_event_mgr::default() }

/// Parent index of node `idx` in the canonical layout: levels stored one after another, row major.
fn iso_parent(w: usize, h: usize, idx: usize) -> Option<usize> {
    let (mut lw, mut lh, mut base) = (w, h, 0usize);
    loop {
        let n = lw * lh;
        if idx < base + n {
            if n == 1 { return None; }
            let (x, y) = ((idx - base) % lw, (idx - base) / lw);
            return Some(base + n + (y / 2) * ((lw + 1) / 2) + x / 2);
        }
        base += n;
        lw = (lw + 1) / 2;
        lh = (lh + 1) / 2;
    }
}
fn iso_nodes(w: usize, h: usize) -> usize {
    let (mut lw, mut lh, mut t) = (w, h, 0);
    loop {
        t += lw * lh;
        if lw * lh <= 1 { return t; }
        lw = (lw + 1) / 2;
        lh = (lh + 1) / 2;
    }
}
unsafe fn check_shape(t: *mut opj_tgt_tree_t, w: usize, h: usize) {
    let n = iso_nodes(w, h);
    assert!((*t).numnodes as usize == n);
    assert!((*t).numleafsh as usize == w && (*t).numleafsv as usize == h);
    let mut i = 0;
    while i < n {
        let nd = (*t).nodes.add(i);
        assert!((*nd).value == 999 && (*nd).low == 0 && (*nd).known == 0);
        match iso_parent(w, h, i) {
            None => assert!((*nd).parent.is_null()),
            Some(p) => assert!((*nd).parent == (*t).nodes.add(p)),
        }
        i += 1;
    }
}

unsafe fn shapes(w: u32, h0: u32, h1: u32) {
    let mut m = mgr();
    let mut h = h0;
    while h <= h1 {
        let t = opj_tgt_create(w, h, &mut m);
        if !t.is_null() {
            check_shape(t, w as usize, h as usize);
            opj_tgt_destroy(t);
        }
        h += 1;
    }
}
/// Re-initialising an existing, used tree for other dimensions.
unsafe fn reinit(w0: u32, h0: u32, w: u32, h: u32) {
    let mut m = mgr();
    let t = opj_tgt_create(w0, h0, &mut m);
    if t.is_null() { return; }
    opj_tgt_setvalue(t, 0, 3);
    (*(*t).nodes).low = 2;
    (*(*t).nodes).known = 1;
    let t2 = opj_tgt_init(t, w, h, &mut m);
    if w == 0 || h == 0 { assert!(t2.is_null()); return; }
    if t2.is_null() { return; }
    check_shape(t2, w as usize, h as usize);
    opj_tgt_destroy(t2);
}

//@ shape_w1: bounded(1 x 1..4 leaves) | tier=quick | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w1() { kani::cover!(true); unsafe { shapes(1, 1, 4) } }

//@ shape_w2: bounded(2 x 1..3 leaves) | tier=quick | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w2() { kani::cover!(true); unsafe { shapes(2, 1, 3) } }

//@ shape_w3: bounded(3 x 1..3 leaves) | tier=quick | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w3() { kani::cover!(true); unsafe { shapes(3, 1, 3) } }

//@ shape_w4: bounded(4 x 2..3 leaves) | tier=quick | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w4() { kani::cover!(true); unsafe { shapes(4, 2, 3) } }

//@ shape_w5: bounded(5 x 2..3 leaves) | tier=quick | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w5() { kani::cover!(true); unsafe { shapes(5, 2, 3) } }

//@ shape_w1t: bounded(1 x 5..9 leaves) | tier=thorough | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w1t() { kani::cover!(true); unsafe { shapes(1, 5, 9) } }

//@ shape_w4t: bounded(4 x 4..5 leaves) | tier=thorough | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w4t() { kani::cover!(true); unsafe { shapes(4, 4, 5) } }

//@ shape_w5t: bounded(5 x 4..5 leaves) | tier=thorough | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w5t() { kani::cover!(true); unsafe { shapes(5, 4, 5) } }

//@ shape_w9: bounded(9 x 1..2 leaves) | tier=thorough | fns=opj_tgt_create,opj_tgt_reset,opj_tgt_destroy | what=node count, quad-tree parents and initial node state; all accesses inside the allocation
#[kani::proof]
#[kani::unwind(60)]
fn shape_w9() { kani::cover!(true); unsafe { shapes(9, 1, 2) } }

//@ reinit_a: bounded(reinit(1, 1, 3, 2)) | tier=quick | fns=opj_tgt_init,opj_tgt_reset | what=a reused tree has the shape and initial state of a new one
#[kani::proof]
#[kani::unwind(60)]
fn reinit_a() { kani::cover!(true); unsafe { reinit(1, 1, 3, 2); } }

//@ reinit_b: bounded(reinit(3, 2, 2, 3)) | tier=quick | fns=opj_tgt_init,opj_tgt_reset | what=a reused tree has the shape and initial state of a new one
#[kani::proof]
#[kani::unwind(60)]
fn reinit_b() { kani::cover!(true); unsafe { reinit(3, 2, 2, 3); } }

//@ reinit_c: bounded(reinit(2, 5, 4, 4), reinit(2, 2, 3, 0), reinit(5, 3, 5, 2)) | tier=thorough | fns=opj_tgt_init,opj_tgt_reset | what=a reused tree has the shape and initial state of a new one
#[kani::proof]
#[kani::unwind(60)]
fn reinit_c() { kani::cover!(true); unsafe { reinit(2, 5, 4, 4); reinit(2, 2, 0, 3); reinit(2, 2, 3, 0); reinit(5, 3, 5, 2); } }

// ------------------------------------------------------------ threshold coding
/// Recording channel between encoder and decoder (bit I/O itself: C01).
static mut BITS: [u32; 40] = [0; 40];
static mut NW: usize = 0;
static mut NR: usize = 0;
unsafe fn rec_putbit(_b: *mut opj_bio_t, v: OPJ_UINT32) { BITS[NW] = v; NW += 1; }
unsafe fn rec_read(_b: *mut opj_bio_t, n: OPJ_UINT32) -> OPJ_UINT32 {
    assert!(n == 1);
    assert!(NR < NW); // never asks for more than was coded
    NR += 1;
    BITS[NR - 1]
}

fn node(parent: *mut opj_tgt_node_t) -> opj_tgt_node_t { opj_tgt_node_t { parent, value: 0, low: 0, known: 0 } }

/// Coding a path of D nodes (root first is index D-1; leaf 0) from any reachable joint state.
fn lockstep<const D: usize>(k: i32) {
    let null = std::ptr::null_mut::<opj_tgt_node_t>();
    let mut en: [opj_tgt_node_t; D] = core::array::from_fn(|_| node(null));
    let mut dn: [opj_tgt_node_t; D] = core::array::from_fn(|_| node(null));
    let t: i32 = kani::any();
    kani::assume(t >= 0 && t <= 70000);
    let (ep, dp) = (en.as_mut_ptr(), dn.as_mut_ptr());
    let mut i = 0;
    while i < D {
        unsafe {
            let (e, d) = (ep.add(i), dp.add(i));
            (*e).value = kani::any();
            (*e).low = kani::any();
            (*e).known = kani::any();
            kani::assume((*e).value >= 0 && (*e).low >= 0 && (*e).low <= (*e).value && (*e).value <= 999);
            kani::assume((*e).known <= 1 && ((*e).known == 0 || (*e).low == (*e).value));
            // the decoder knows the value exactly when the encoder has announced it
            (*d).low = (*e).low;
            (*d).value = if (*e).known == 1 { (*e).value } else { 999 };
            kani::assume(t - (*e).low <= k);
            if i + 1 < D { (*e).parent = ep.add(i + 1); (*d).parent = dp.add(i + 1); }
        }
        i += 1;
    }
    // an ancestor's value is the minimum over its descendants
    i = 0;
    while i + 1 < D { unsafe { kani::assume((*ep.add(i + 1)).value <= (*ep.add(i)).value); } i += 1; }
    let v0: [i32; D] = core::array::from_fn(|i| unsafe { (*ep.add(i)).value });
    kani::assume(v0[0] < 999);
    kani::cover!(t == v0[0] && v0[0] > 0);
    kani::cover!(t > v0[0] && unsafe { (*ep).known } == 0);
    let mut te = opj_tgt_tree_t { numleafsh: 1, numleafsv: 1, numnodes: D as u32, nodes: ep, nodes_size: 0 };
    let mut td = opj_tgt_tree_t { numleafsh: 1, numleafsv: 1, numnodes: D as u32, nodes: dp, nodes_size: 0 };
    unsafe {
        opj_tgt_encode(std::ptr::null_mut(), &mut te, 0, t);
        let r = opj_tgt_decode(std::ptr::null_mut(), &mut td, 0, t);
        assert!(NR == NW); // consumes exactly the coded bits
        assert!((r != 0) == (v0[0] < t)); // the answer the encoder coded
        let mut i = 0;
        while i < D {
            let (e, d) = (ep.add(i), dp.add(i));
            assert!((*e).value == v0[i]); // the encoder never changes the values
            assert!((*d).low == (*e).low);
            assert!((*d).value == if (*e).known == 1 { (*e).value } else { 999 });
            assert!((*e).low <= (*e).value && ((*e).known == 0 || (*e).low == (*e).value));
            // what the threshold decides is now known
            if t > v0[i] { assert!((*e).known == 1); }
            i += 1;
        }
    }
}

//@ lockstep_step: complete | fns=opj_tgt_encode,opj_tgt_decode | what=requires threshold at most 3 above what the node has reached (callers raise it by 1); one node under an arbitrary parent state, which carries any deeper path by induction: decoder consumes exactly the coded bits, answers value < threshold exactly, and both sides stay in the same joint state
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(crate::bio::opj_bio_putbit, rec_putbit)]
#[kani::stub(crate::bio::opj_bio_read, rec_read)]
fn lockstep_step() { lockstep::<2>(3) }

//@ lockstep_path: bounded(path of 3 nodes; threshold at most 1 above each node's reached bound) | fns=opj_tgt_encode,opj_tgt_decode | what=the same over a whole root-to-leaf path
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(crate::bio::opj_bio_putbit, rec_putbit)]
#[kani::stub(crate::bio::opj_bio_read, rec_read)]
fn lockstep_path() { lockstep::<3>(1) }

//@ setvalue: bounded(path of 4 nodes) | fns=opj_tgt_setvalue | what=leaf takes the value and every ancestor becomes the minimum of itself and the value; nothing else changes
#[kani::proof]
#[kani::unwind(6)]
fn setvalue() {
    let null = std::ptr::null_mut::<opj_tgt_node_t>();
    let mut en: [opj_tgt_node_t; 4] = core::array::from_fn(|_| node(null));
    let ep = en.as_mut_ptr();
    let mut v0 = [0i32; 4];
    let mut i = 0;
    while i < 4 {
        unsafe {
            (*ep.add(i)).value = kani::any();
            (*ep.add(i)).low = kani::any();
            v0[i] = (*ep.add(i)).value;
            if i < 3 { (*ep.add(i)).parent = ep.add(i + 1); }
            if i > 0 { kani::assume(v0[i] <= v0[i - 1]); }
        }
        i += 1;
    }
    let v: i32 = kani::any();
    kani::assume(v >= 0 && v <= v0[0]);
    kani::cover!(v < v0[2] && v > v0[3]);
    let mut te = opj_tgt_tree_t { numleafsh: 1, numleafsv: 1, numnodes: 4, nodes: ep, nodes_size: 0 };
    unsafe { opj_tgt_setvalue(&mut te, 0, v) };
    let mut i = 0;
    while i < 4 {
        let x = unsafe { (*ep.add(i)).value };
        assert!(x == if v < v0[i] { v } else { v0[i] });
        i += 1;
    }
}
