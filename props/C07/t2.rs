// Contracts of the packet (tier-2) coder: ISO/IEC 15444-1 B.9, B.10.
use std::ptr::{addr_of, addr_of_mut};

// ---- a bit string standing for the packet-header bit stream (whose own write/read identity is C01)
static mut ACC: u64 = 0;    // bits written and not yet read, right aligned
static mut CNT: u32 = 0;
static mut TOTAL: u32 = 0;  // bits ever written
unsafe fn bits_put(_bio: *mut opj_bio_t, b: OPJ_UINT32) {
    assert!(b <= 1);
    ACC = (ACC << 1) | b as u64;
    CNT += 1;
    TOTAL += 1;
}
unsafe fn bits_write(_bio: *mut opj_bio_t, v: OPJ_UINT32, n: OPJ_UINT32) {
    assert!(n > 0 && n <= 32);
    ACC = (ACC << n) | (v as u64 & ((1u64 << n) - 1));
    CNT += n;
    TOTAL += n;
}
unsafe fn bits_read(_bio: *mut opj_bio_t, n: OPJ_UINT32) -> OPJ_UINT32 {
    assert!(n > 0 && n <= CNT);
    CNT -= n;
    ((ACC >> CNT) & ((1u64 << n) - 1)) as u32
}
const NOBIO: *mut opj_bio_t = core::ptr::null_mut();

/// Table B.4: code word and length for a number of coding passes.
fn table_b4(n: u32) -> (u64, u32) {
    match n {
        1 => (0, 1),
        2 => (0b10, 2),
        3..=5 => (0b1100 | (n - 3) as u64, 4),
        6..=36 => (0b1111_00000 | (n - 6) as u64, 9),
        _ => (0b1111_11111_0000000 | (n - 37) as u64, 16),
    }
}

//@ passes_code: complete | fns=opj_t2_putnumpasses,opj_t2_getnumpasses | what=for every 1..=164 passes the code word is the one of Table B.4 and decodes to the same number
#[kani::proof]
#[kani::stub(crate::bio::opj_bio_putbit, bits_put)]
#[kani::stub(crate::bio::opj_bio_write, bits_write)]
#[kani::stub(crate::bio::opj_bio_read, bits_read)]
fn passes_code() {
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 164);
    unsafe {
        opj_t2_putnumpasses(NOBIO, n);
        let (w, l) = table_b4(n);
        assert!(CNT == l && ACC == w);
        assert!(opj_t2_getnumpasses(NOBIO) == n);
        assert!(CNT == 0);
    }
    kani::cover!(n == 164);
    kani::cover!(n == 2);
}

//@ passes_decode: complete | fns=opj_t2_getnumpasses | what=whatever bits arrive, the decoded number is in 1..=164 and exactly its code word is consumed
#[kani::proof]
#[kani::stub(crate::bio::opj_bio_read, bits_read)]
fn passes_decode() {
    unsafe {
        ACC = kani::any::<u32>() as u64;
        CNT = 32;
        let n = opj_t2_getnumpasses(NOBIO);
        assert!(n >= 1 && n <= 164);
        let (w, l) = table_b4(n);
        assert!(CNT == 32 - l);
        assert!(ACC >> CNT == w);
        kani::cover!(n == 36);
        kani::cover!(n == 37);
    }
}

//@ comma_code: complete | fns=opj_t2_putcommacode,opj_t2_getcommacode | what=every length-indicator increment 0..=32 is n ones and a zero, and decodes to n
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(crate::bio::opj_bio_putbit, bits_put)]
#[kani::stub(crate::bio::opj_bio_read, bits_read)]
fn comma_code() {
    let n: u32 = kani::any();
    kani::assume(n <= 32);
    unsafe {
        opj_t2_putcommacode(NOBIO, n as i32);
        assert!(CNT == n + 1 && ACC == ((1u64 << n) - 1) << 1);
        assert!(opj_t2_getcommacode(NOBIO) == n && CNT == 0);
    }
    kani::cover!(n == 32);
    kani::cover!(n == 0);
}

// ---- segments
fn any_seg() -> opj_tcd_seg_t {
    opj_tcd_seg_t { len: kani::any(), numpasses: kani::any(), real_num_passes: kani::any(), maxpasses: kani::any(), numnewpasses: kani::any(), newlen: kani::any() }
}
fn seg_eq(a: &opj_tcd_seg_t, b: &opj_tcd_seg_t) -> bool {
    a.len == b.len && a.numpasses == b.numpasses && a.real_num_passes == b.real_num_passes && a.maxpasses == b.maxpasses
        && a.numnewpasses == b.numnewpasses && a.newlen == b.newlen
}
fn no_cblk() -> opj_tcd_cblk_dec_t {
    opj_tcd_cblk_dec_t {
        segs: core::ptr::null_mut(), chunks: core::ptr::null_mut(), x0: 0, y0: 0, x1: 0, y1: 0, Mb: 0, numbps: 0, numlenbits: 0,
        numnewpasses: 0, numsegs: 0, real_num_segs: 0, m_current_max_segs: 0, numchunks: 0, numchunksalloc: 0, decoded_data: core::ptr::null_mut(),
    }
}
/// B.10.6, Table D.9: how many passes the segment that follows may hold
fn want_maxpasses(style: u32, first: bool, prev: u32) -> u32 {
    if style & 4 != 0 { 1 }
    else if style & 1 != 0 { if first { 10 } else if prev == 1 || prev == 10 { 2 } else { 1 } }
    else { 109 }
}

//@ segment_opens: complete | fns=opj_t2_init_seg,opj_tcd_reinit_segment | what=for every code-block style and segment index, with and without growing the array, a new segment is empty, gets the pass limit of its position, and the other segments and fields keep their values
#[kani::proof]
#[kani::unwind(14)]
fn segment_opens() {
    let mut cblk = no_cblk();
    let have: u32 = 3;
    let segs = unsafe { opj_malloc(have as usize * core::mem::size_of::<opj_tcd_seg_t>()) as *mut opj_tcd_seg_t };
    kani::assume(!segs.is_null());
    let old = [any_seg(), any_seg(), any_seg()];
    unsafe { for i in 0..3 { *segs.add(i) = old[i]; } }
    cblk.segs = segs;
    cblk.m_current_max_segs = have;
    let index: u32 = kani::any();
    kani::assume(index <= 3);
    let first: bool = index == 0;
    let style: u32 = kani::any();
    let ok = unsafe { opj_t2_init_seg(&mut cblk, index, style, first as u32) };
    if ok == 0 {
        assert!(index == 3);      // only an allocation failure
        return;
    }
    unsafe {
        assert!(cblk.m_current_max_segs == if index < 3 { 3 } else { 13 });
        let s = *cblk.segs.add(index as usize);
        assert!(s.len == 0 && s.numpasses == 0 && s.real_num_passes == 0 && s.numnewpasses == 0 && s.newlen == 0);
        assert!(s.maxpasses == want_maxpasses(style, first, if first { 0 } else { old[index as usize - 1].maxpasses }));
        let j: usize = kani::any();
        kani::assume(j < 3 && j != index as usize);
        assert!(seg_eq(&*cblk.segs.add(j), &old[j]));
        if index == 3 {
            let k: usize = kani::any();
            kani::assume(k > 3 && k < 13);
            let z = *cblk.segs.add(k);
            assert!(z.len == 0 && z.numpasses == 0 && z.maxpasses == 0 && z.newlen == 0);
        }
        assert!(cblk.numsegs == 0 && cblk.numnewpasses == 0 && cblk.chunks.is_null());
    }
    kani::cover!(index == 3 && style & 5 == 1);
    kani::cover!(index == 0 && style & 4 == 4);
}

// ---- whole packets, header fields as events (their bit codes are proved above, in C01 and in C06)
const BIT: u32 = 1;
const FIELD: u32 = 2;
const PASSES: u32 = 3;
const COMMA: u32 = 4;
const INCL: u32 = 5;
const MSB: u32 = 6;
const EMAX: usize = 24;
static mut EV: [(u32, u32, u32); EMAX] = [(0, 0, 0); EMAX];
static mut EN: usize = 0;     // events written
static mut ER: usize = 0;     // events read
static mut HDR: u32 = 0;      // bytes the header takes
static mut INCLV: [u32; 8] = [999; 8];     // inclusion tree of the code-block (leaf) values
static mut MSBV: [u32; 8] = [999; 8];
static mut TREE_INCL: [u8; 8] = [0; 8];    // addresses identify the trees
static mut TREE_MSB: [u8; 8] = [0; 8];

unsafe fn ev(e: (u32, u32, u32)) {
    assert!(EN < EMAX);
    EV[EN] = e;
    EN += 1;
}
unsafe fn take(kind: u32) -> (u32, u32) {
    assert!(ER < EN);
    let (k, a, b) = EV[ER];
    assert!(k == kind);
    ER += 1;
    (a, b)
}
unsafe fn which(base: *mut u8, t: *mut opj_tgt_tree_t) -> Option<usize> {
    let mut i = 0;
    while i < 8 {
        if base.add(i) as *mut opj_tgt_tree_t == t { return Some(i); }
        i += 1;
    }
    None
}
/// the header comes out `HDR` bytes long, if that many fit
unsafe fn s_end(b: *mut opj_bio_t) -> OPJ_BOOL {
    let room = (*b).end.offset_from((*b).start) as u32;
    if HDR > room { return 0; }
    (*b).bp = (*b).start.add(HDR as usize);
    1
}
unsafe fn s_flush(b: *mut opj_bio_t) -> OPJ_BOOL { s_end(b) }
unsafe fn s_inalign(b: *mut opj_bio_t) -> OPJ_BOOL { assert!(ER == EN); s_end(b) }
unsafe fn s_putbit(_b: *mut opj_bio_t, v: OPJ_UINT32) { assert!(v <= 1); ev((BIT, v, 0)); }
unsafe fn s_write(_b: *mut opj_bio_t, v: OPJ_UINT32, n: OPJ_UINT32) {
    assert!(n >= 1 && n <= 32 && (n == 32 || v >> n == 0));   // the field can carry the value
    ev((FIELD, v, n));
}
unsafe fn s_read(_b: *mut opj_bio_t, n: OPJ_UINT32) -> OPJ_UINT32 {
    if n == 1 && ER < EN && EV[ER].0 == BIT { return take(BIT).0; }
    let (v, w) = take(FIELD);
    assert!(w == n);       // reader and writer agree on the width of every length field
    v
}
fn s_ilog(a: OPJ_INT32) -> OPJ_INT32 { if a <= 1 { 0 } else { 31 - a.leading_zeros() as i32 } }
fn s_ulog(a: OPJ_UINT32) -> OPJ_UINT32 { if a <= 1 { 0 } else { 31 - a.leading_zeros() } }
unsafe fn s_putpasses(_b: *mut opj_bio_t, n: OPJ_UINT32) { assert!(n >= 1 && n <= 164); ev((PASSES, n, 0)); }
unsafe fn s_getpasses(_b: *mut opj_bio_t) -> OPJ_UINT32 { take(PASSES).0 }
unsafe fn s_putcomma(_b: *mut opj_bio_t, n: OPJ_INT32) { assert!(n >= 0 && n <= 32); ev((COMMA, n as u32, 0)); }
unsafe fn s_getcomma(_b: *mut opj_bio_t) -> OPJ_UINT32 { take(COMMA).0 }
/// tag-tree contract (C06): for the same leaf and threshold the decoder learns whether the value is
/// below the threshold, and consumes exactly what the encoder wrote for that question
unsafe fn s_tgt_encode(_b: *mut opj_bio_t, t: *mut opj_tgt_tree_t, leaf: OPJ_UINT32, thr: OPJ_INT32) {
    match which(addr_of_mut!(TREE_INCL) as *mut u8, t) {
        Some(i) => ev((INCL, (i as u32) * 16 + leaf, thr as u32)),
        None => {
            let i = which(addr_of_mut!(TREE_MSB) as *mut u8, t).unwrap();
            assert!(thr == 999);
            ev((MSB, (i as u32) * 16 + leaf, 0));
        }
    }
}
unsafe fn s_tgt_decode(_b: *mut opj_bio_t, t: *mut opj_tgt_tree_t, leaf: OPJ_UINT32, thr: OPJ_INT32) -> OPJ_UINT32 {
    match which(addr_of_mut!(TREE_INCL) as *mut u8, t) {
        Some(i) => {
            let (who, th) = take(INCL);
            assert!(who == (i as u32) * 16 + leaf && th == thr as u32);
            (INCLV[i * 2 + leaf as usize] < thr as u32) as u32
        }
        None => {
            let i = which(addr_of_mut!(TREE_MSB) as *mut u8, t).unwrap();
            let known = MSBV[i * 2 + leaf as usize] < thr as u32;
            if known {
                let (who, _) = take(MSB);
                assert!(who == (i as u32) * 16 + leaf);
            }
            known as u32
        }
    }
}
unsafe fn s_tgt_setvalue(t: *mut opj_tgt_tree_t, leaf: OPJ_UINT32, v: OPJ_INT32) {
    match which(addr_of_mut!(TREE_INCL) as *mut u8, t) {
        Some(i) => INCLV[i * 2 + leaf as usize] = v as u32,
        None => {
            let i = which(addr_of_mut!(TREE_MSB) as *mut u8, t).unwrap();
            MSBV[i * 2 + leaf as usize] = v as u32;
        }
    }
}
static mut READING: bool = false;   // the reader's trees know what the writer's hold once decoded
unsafe fn s_tgt_reset(t: *mut opj_tgt_tree_t) {
    if READING { return; }
    match which(addr_of_mut!(TREE_INCL) as *mut u8, t) {
        Some(i) => { INCLV[i * 2] = 999; INCLV[i * 2 + 1] = 999; }
        None => {
            let i = which(addr_of_mut!(TREE_MSB) as *mut u8, t).unwrap();
            MSBV[i * 2] = 999;
            MSBV[i * 2 + 1] = 999;
        }
    }
}
fn z<T>() -> T { unsafe { core::mem::zeroed() } }

/// A resolution with `nb` bands of one precinct with `n` code-blocks each, for the encoder and the decoder.
struct Side {
    tile: opj_tcd_tile_t,
    comp: opj_tcd_tilecomp_t,
    res: opj_tcd_resolution_t,
    prec: [opj_tcd_precinct_t; 3],
}
impl Side {
    fn new() -> Side { Side { tile: z(), comp: z(), res: z(), prec: [z(), z(), z()] } }
    unsafe fn wire(&mut self, nb: u32, empty: [bool; 3], n: u32, numbps: i32) {
        self.tile.comps = addr_of_mut!(self.comp);
        self.comp.resolutions = addr_of_mut!(self.res);
        let r = addr_of_mut!(self.res);
        (*r).pw = 1;
        (*r).ph = 1;
        (*r).numbands = nb;
        let mut i = 0;
        while i < nb as usize {
            let b = &mut (*r).bands[i];
            b.x1 = if empty[i] { 0 } else { 8 };
            b.y1 = 8;
            b.numbps = numbps;
            b.precincts = addr_of_mut!(self.prec[i]);
            b.precincts_data_size = core::mem::size_of::<opj_tcd_precinct_t>() as u32;
            let p = addr_of_mut!(self.prec[i]);
            (*p).cw = n;
            (*p).ch = 1;
            (*p).incltree = (addr_of_mut!(TREE_INCL) as *mut u8).add(i) as *mut opj_tgt_tree_t;
            (*p).imsbtree = (addr_of_mut!(TREE_MSB) as *mut u8).add(i) as *mut opj_tgt_tree_t;
            i += 1;
        }
    }
}

const BUF: u32 = 0x8_0000;
const PMAX: usize = 14;

/// Is the bit string closed after pass `i` (0-based)? Table D.9 (selective bypass), D.4.2 (termination on each pass)
fn terminated(style: u32, i: usize) -> bool {
    style & 4 != 0 || (style & 1 != 0 && i >= 9 && (i - 9) % 3 != 1)
}
/// The segments a reader holds after `passes` passes.
fn segments(style: u32, passes: u32, segs: &mut [opj_tcd_seg_t; PMAX]) -> u32 {
    let mut k = 0;
    let mut i = 0;
    while i < passes as usize {
        if segs[k].numpasses == 0 {
            segs[k].maxpasses = want_maxpasses(style, k == 0, if k == 0 { 0 } else { segs[k - 1].maxpasses });
        }
        segs[k].numpasses += 1;
        if segs[k].numpasses == segs[k].maxpasses && i + 1 < passes as usize { k += 1; }
        i += 1;
    }
    k as u32 + 1
}

/// One code-block over one packet: `prior` passes sent before layer `layno`, `now` passes in it,
/// markers `csty`, `zbp` zero bit-planes; any lengths, length indicator, header size and space.
unsafe fn one_block(style: u32, layno: u32, prior: u32, now: u32, csty: u32, zbp: u32) {
    let mut mgr = opj_event_mgr::default();
    let numbps: i32 = 3;
    let cbps: u32 = 3 - zbp;
    // encoder code-block
    let mut passes = [opj_tcd_pass_t { rate: 0, distortiondec: 0.0, len: 0, term: false }; PMAX];
    let mut i = 0;
    let mut total = 0u32;
    while i < PMAX {
        let l: u32 = kani::any();
        kani::assume(l <= 0xFFFF);
        passes[i].len = l;
        passes[i].term = terminated(style, i);
        if i >= prior as usize && i < (prior + now) as usize { total += l; }
        i += 1;
    }
    let mut layers = [opj_tcd_layer_t { numpasses: 0, len: 0, disto: 0.0, data: core::ptr::null_mut() }; 4];
    layers[layno as usize].numpasses = now;
    layers[layno as usize].len = if now == 0 { 0 } else { total };
    let mut enc: opj_tcd_cblk_enc_t = z();
    let e = addr_of_mut!(enc);
    (*e).layers = layers.as_mut_ptr();
    (*e).passes = passes.as_mut_ptr();
    (*e).numbps = cbps;
    (*e).numpasses = prior;
    let lenbits: u32 = kani::any();
    kani::assume(lenbits >= 3 && lenbits <= 20);
    (*e).numlenbits = if prior == 0 { kani::any() } else { lenbits };

    let mut se = Side::new();
    se.wire(1, [false; 3], 1, numbps);
    se.prec[0].cblks.enc = e;
    let mut tcp: opj_tcp_t = z();
    let t = addr_of_mut!(tcp);
    (*t).csty = csty;
    let mut pi: opj_pi_iterator_t = z();
    let pip = addr_of_mut!(pi);
    (*pip).layno = layno;
    se.tile.packno = kani::any();
    HDR = kani::any();
    kani::assume(HDR >= 1 && HDR <= 6);
    // exactly the space announced: nothing may be written past it
    let length: u32 = kani::any();
    kani::assume(length <= if now == 0 { 20 } else { BUF });
    let buf = opj_malloc(if now == 0 { 20 } else { length as usize + 1 }) as *mut u8;
    kani::assume(!buf.is_null());
    let mut written: u32 = 0;
    INCLV[0] = if layno == 0 { 999 } else if prior > 0 { 0 } else { 999 };
    MSBV[0] = (numbps - cbps as i32) as u32;
    let ok = opj_t2_encode_packet(0, addr_of_mut!(se.tile), t, pip, buf, &mut written, length, core::ptr::null_mut(), THRESH_CALC, &mut mgr);
    let sop = csty & 2 != 0;
    let eph = csty & 4 != 0;
    let head = HDR + if sop { 6 } else { 0 } + if eph { 2 } else { 0 };
    let body = if now == 0 { 0 } else { total };
    assert!((ok != 0) == (head + body <= length));
    if ok == 0 { return; }
    assert!(written == head + body);
    assert!((*e).numpasses == prior + now);
    if sop {
        let pk = se.tile.packno;
        assert!(*buf == 0xFF && *buf.add(1) == 0x91 && *buf.add(2) == 0 && *buf.add(3) == 4 && *buf.add(4) == (pk >> 8) as u8 && *buf.add(5) == pk as u8);
    }
    if eph { assert!(*buf.add(head as usize - 2) == 0xFF && *buf.add(head as usize - 1) == 0x92); }

    // decoder in the corresponding state
    let mut segs = [opj_tcd_seg_t { len: 0, numpasses: 0, real_num_passes: 0, maxpasses: 0, numnewpasses: 0, newlen: 0 }; PMAX];
    let mut dec = no_cblk();
    dec.segs = segs.as_mut_ptr();
    dec.m_current_max_segs = PMAX as u32;
    if prior > 0 {
        dec.numlenbits = lenbits;
        dec.numsegs = segments(style, prior, &mut segs);
    }
    let mut sd = Side::new();
    sd.wire(1, [false; 3], 1, numbps);
    sd.prec[0].cblks.dec = &mut dec;
    let mut tccp: opj_tccp_t = z();
    tccp.cblksty = style;
    (*t).tccps = addr_of_mut!(tccp);
    let mut cp: opj_cp_t = z();
    let mut t2 = opj_t2_t { image: core::ptr::null_mut(), cp: addr_of_mut!(cp) };
    let mut present: OPJ_BOOL = 7;
    let mut read: u32 = 0;
    READING = true;
    let segs_before = segs;
    let r = opj_t2_read_packet_header(&mut t2, addr_of_mut!(sd.tile), t, pip, &mut present, buf, &mut read, head, core::ptr::null_mut(), &mut mgr);
    assert!(r == 1 && present == 1);
    assert!(read == head);
    assert!(ER == EN);
    if now == 0 {
        assert!(dec.numnewpasses == 0);
    } else {
        assert!(dec.numnewpasses == now);
        assert!(dec.numlenbits == (*e).numlenbits);
        if prior == 0 { assert!(dec.numbps == cbps && dec.Mb == numbps as u32); }
        // the new passes, cut into segments where the style terminates them
        let want = segs_before;
        let mut k = if prior == 0 { 0 } else if want[dec.numsegs as usize - 1].numpasses == want[dec.numsegs as usize - 1].maxpasses { dec.numsegs as usize } else { dec.numsegs as usize - 1 };
        let (mut len, mut n) = (0u32, 0u32);
        let mut i = prior as usize;
        while i < (prior + now) as usize {
            len += passes[i].len;
            n += 1;
            if terminated(style, i) || i + 1 == (prior + now) as usize {
                assert!(segs[k].numnewpasses == n && segs[k].newlen == len);
                assert!(segs[k].numpasses + n <= segs[k].maxpasses);
                k += 1;
                len = 0;
                n = 0;
            }
            i += 1;
        }
    }
    kani::cover!(HDR == 5 && total > 300 || now == 0);
}

//@ packet_first: bounded(one code-block, at most 3 passes per packet and 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=first layer, three passes in one segment: the reader recovers inclusion, zero bit-planes, passes, length indicator and length; sizes; failure exactly when the space is too small
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_first() { unsafe { one_block(0, 0, 0, 3, 0, 2) } }

//@ packet_later_first: bounded(one code-block, at most 3 passes per packet and 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=the same for a code-block first included in a later layer
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_later_first() { unsafe { one_block(0, 2, 0, 1, 0, 0) } }

//@ packet_next: bounded(one code-block, at most 3 passes per packet and 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=the same for a code-block that already has passes: one inclusion bit, no zero bit-planes, the running length indicator
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_next() { unsafe { one_block(0, 1, 2, 3, 0, 0) } }

//@ packet_absent: bounded(one code-block, at most 3 passes per packet and 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=the same when the code-block contributes nothing to this layer, with SOP and EPH markers and their bytes
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_absent() { unsafe { one_block(0, 1, 2, 0, 6, 0) } }

//@ packet_term_first: bounded(one code-block, at most 3 passes per packet and 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=every pass terminated: one segment per pass, each with its own length
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_term_first() { unsafe { one_block(4, 0, 0, 3, 0, 1) } }

//@ packet_term_next: bounded(one code-block, at most 3 passes per packet and 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=every pass terminated, after earlier passes
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_term_next() { unsafe { one_block(4, 1, 2, 2, 0, 0) } }

//@ packet_lazy: bounded(one code-block, at most 4 passes per packet after at most 9, at most 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=selective bypass: after the tenth pass segments of two and one passes alternate
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_lazy() { unsafe { one_block(1, 1, 9, 4, 0, 0) } }

//@ packet_lazy_mid: bounded(one code-block, at most 4 passes per packet after at most 9, at most 2 zero bit-planes, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=selective bypass, packet starting inside a two-pass segment
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_lazy_mid() { unsafe { one_block(1, 1, 11, 2, 0, 0) } }

// ---- several bands and code-blocks
unsafe fn many(layno: u32, prior: [u32; 4], now: [u32; 4], empty: [bool; 3]) {
    let mut mgr = opj_event_mgr::default();
    let mut passes = [[opj_tcd_pass_t { rate: 0, distortiondec: 0.0, len: 0, term: false }; 4]; 4];
    let mut layers = [[opj_tcd_layer_t { numpasses: 0, len: 0, disto: 0.0, data: core::ptr::null_mut() }; 2]; 4];
    let mut enc: [opj_tcd_cblk_enc_t; 4] = z();
    let mut total = [0u32; 4];
    let mut body = 0;
    let lenbits: u32 = kani::any();
    kani::assume(lenbits >= 3 && lenbits <= 20);
    let mut b = 0;
    while b < 4 {
        let mut i = 0;
        while i < 4 {
            let l: u32 = kani::any();
            kani::assume(l <= 0xFFFF);
            passes[b][i].len = l;
            if i >= prior[b] as usize && i < (prior[b] + now[b]) as usize { total[b] += l; }
            i += 1;
        }
        layers[b][layno as usize].numpasses = now[b];
        layers[b][layno as usize].len = total[b];
        enc[b].layers = layers[b].as_mut_ptr();
        enc[b].passes = passes[b].as_mut_ptr();
        enc[b].numbps = 3;
        enc[b].numpasses = prior[b];
        enc[b].numlenbits = if prior[b] == 0 { kani::any() } else { lenbits };
        b += 1;
    }
    let mut se = Side::new();
    se.wire(3, empty, 2, 3);
    // bands 0 and 2 carry the code-blocks; band 1, when not empty, is a precinct without any
    se.prec[0].cblks.enc = addr_of_mut!(enc[0]);
    se.prec[1].cw = 0;
    se.prec[2].cblks.enc = addr_of_mut!(enc[2]);
    b = 0;
    while b < 4 {
        let leaf = (b / 2) * 4 + b % 2;
        INCLV[leaf] = if prior[b] > 0 { 0 } else { 999 };
        MSBV[leaf] = 0;
        if !empty[(b / 2) * 2] { body += total[b]; }
        b += 1;
    }
    let mut tcp: opj_tcp_t = z();
    let t = addr_of_mut!(tcp);
    let mut pi: opj_pi_iterator_t = z();
    let pip = addr_of_mut!(pi);
    (*pip).layno = layno;
    HDR = 3;
    let length: u32 = kani::any();
    kani::assume(length <= BUF);
    let buf = opj_malloc(length as usize + 1) as *mut u8;
    kani::assume(!buf.is_null());
    let mut written: u32 = 100;
    let ok = opj_t2_encode_packet(0, addr_of_mut!(se.tile), t, pip, buf, &mut written, length, core::ptr::null_mut(), THRESH_CALC, &mut mgr);
    assert!((ok != 0) == (HDR + body <= length));
    if ok == 0 { return; }
    assert!(written == 100 + HDR + body);      // packets are accumulated
    let mut segs = [[opj_tcd_seg_t { len: 0, numpasses: 0, real_num_passes: 0, maxpasses: 0, numnewpasses: 0, newlen: 0 }; 2]; 4];
    let mut dec = [no_cblk(), no_cblk(), no_cblk(), no_cblk()];
    b = 0;
    while b < 4 {
        dec[b].segs = segs[b].as_mut_ptr();
        dec[b].m_current_max_segs = 2;
        dec[b].numnewpasses = 7;
        if prior[b] > 0 {
            dec[b].numlenbits = lenbits;
            dec[b].numsegs = 1;
            segs[b][0].numpasses = prior[b];
            segs[b][0].maxpasses = 109;
        }
        b += 1;
    }
    let mut sd = Side::new();
    sd.wire(3, empty, 2, 3);
    sd.prec[0].cblks.dec = addr_of_mut!(dec[0]);
    sd.prec[1].cw = 0;
    sd.prec[2].cblks.dec = addr_of_mut!(dec[2]);
    let mut tccp: opj_tccp_t = z();
    (*t).tccps = addr_of_mut!(tccp);
    let mut cp: opj_cp_t = z();
    let mut t2 = opj_t2_t { image: core::ptr::null_mut(), cp: addr_of_mut!(cp) };
    let mut present: OPJ_BOOL = 7;
    let mut read: u32 = 0;
    READING = true;
    let r = opj_t2_read_packet_header(&mut t2, addr_of_mut!(sd.tile), t, pip, &mut present, buf, &mut read, HDR, core::ptr::null_mut(), &mut mgr);
    assert!(r == 1 && present == 1 && read == HDR && ER == EN);
    b = 0;
    while b < 4 {
        if !empty[(b / 2) * 2] {
            assert!(dec[b].numnewpasses == now[b]);
            assert!(enc[b].numpasses == prior[b] + now[b]);
            if now[b] > 0 {
                assert!(segs[b][0].numnewpasses == now[b] && segs[b][0].newlen == total[b]);
                assert!(dec[b].numlenbits == enc[b].numlenbits);
            }
        } else {
            assert!(dec[b].numnewpasses == 7 && enc[b].numpasses == prior[b]);
        }
        b += 1;
    }
    kani::cover!(total[0] + total[1] > 1000);
}

//@ packet_bands: bounded(two bands of two code-blocks and one without, at most 2 passes each, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=code-blocks of several bands are written and read in one order, with an empty band skipped by both
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_bands() { unsafe { many(1, [2, 0, 0, 1], [1, 2, 0, 0], [false, true, false]) } }

//@ packet_band_order: bounded(two bands of two code-blocks and one without, at most 2 passes each, lengths below 65536) | fns=opj_t2_encode_packet,opj_t2_read_packet_header | what=the same in the first layer, with a precinct that holds no code-blocks
#[kani::proof]
#[kani::unwind(15)]
#[kanitool::stub(crate::bio::opj_bio_flush, s_flush)]
#[kanitool::stub(crate::bio::opj_bio_inalign, s_inalign)]
#[kanitool::stub(crate::bio::opj_bio_putbit, s_putbit)]
#[kanitool::stub(crate::bio::opj_bio_write, s_write)]
#[kanitool::stub(crate::bio::opj_bio_read, s_read)]
#[kanitool::stub(crate::math::opj_int_floorlog2, s_ilog)]
#[kanitool::stub(crate::math::opj_uint_floorlog2, s_ulog)]
#[kanitool::stub(opj_t2_putnumpasses, s_putpasses)]
#[kanitool::stub(opj_t2_getnumpasses, s_getpasses)]
#[kanitool::stub(opj_t2_putcommacode, s_putcomma)]
#[kanitool::stub(opj_t2_getcommacode, s_getcomma)]
#[kanitool::stub(crate::tgt::opj_tgt_encode, s_tgt_encode)]
#[kanitool::stub(crate::tgt::opj_tgt_decode, s_tgt_decode)]
#[kanitool::stub(crate::tgt::opj_tgt_setvalue, s_tgt_setvalue)]
#[kanitool::stub(crate::tgt::opj_tgt_reset, s_tgt_reset)]
fn packet_band_order() { unsafe { many(0, [0; 4], [2, 0, 1, 2], [false; 3]) } }

// ---- packet bodies
const CH: usize = 2;
/// Two bands of two code-blocks, each with up to two new segments.
unsafe fn bodies(skip: bool) {
    let mut mgr = opj_event_mgr::default();
    let mut segs = [[any_seg(), any_seg(), any_seg()], [any_seg(), any_seg(), any_seg()]];
    let mut dec = [no_cblk(), no_cblk()];
    let mut chunks = [[opj_tcd_seg_data_chunk_t { data: core::ptr::null_mut(), len: 0 }; 4]; 2];
    let mut sum: u64 = 0;
    let mut first = [0usize; 2];
    let mut count = [0usize; 2];
    let max: u32 = kani::any();
    kani::assume(max <= 600);
    let mut b = 0;
    while b < 2 {
        dec[b].segs = segs[b].as_mut_ptr();
        dec[b].chunks = chunks[b].as_mut_ptr();
        dec[b].numchunks = b as u32;
        dec[b].numchunksalloc = 4;
        dec[b].numsegs = kani::any();
        kani::assume(dec[b].numsegs <= 1);
        count[b] = kani::any();
        kani::assume(count[b] <= CH);
        first[b] = if dec[b].numsegs == 1 && segs[b][0].numpasses == segs[b][0].maxpasses { 1 } else { 0 };
        let mut n = 0u32;
        let mut i = 0;
        while i < 3 {
            kani::assume(segs[b][i].newlen <= 300);
            kani::assume(segs[b][i].numpasses <= segs[b][i].maxpasses && segs[b][i].maxpasses <= 109);
            kani::assume(segs[b][i].len <= 1000);
            if i >= first[b] && i < first[b] + count[b] {
                kani::assume(segs[b][i].numnewpasses >= 1 && segs[b][i].numnewpasses <= 109);
                n += segs[b][i].numnewpasses;
                sum += segs[b][i].newlen as u64;
            }
            i += 1;
        }
        dec[b].numnewpasses = n;
        b += 1;
    }
    let old = segs;
    let had = [dec[0].numchunks as usize, dec[1].numchunks as usize];
    let empty0: bool = kani::any();
    if empty0 { kani::assume(count[0] == 0); }
    let mut s = Side::new();
    s.wire(2, [empty0, false, false], 1, 3);
    s.prec[0].cblks.dec = addr_of_mut!(dec[0]);
    s.prec[1].cblks.dec = addr_of_mut!(dec[1]);
    let mut pi: opj_pi_iterator_t = z();
    let mut cp: opj_cp_t = z();
    cp.strict = kani::any();
    let mut t2 = opj_t2_t { image: core::ptr::null_mut(), cp: addr_of_mut!(cp) };
    let src = opj_malloc(1 << 12) as *mut u8;
    kani::assume(!src.is_null());
    let mut read: u32 = 77;
    let fits = sum <= max as u64;
    let r = if skip {
        opj_t2_skip_packet_data(&mut t2, addr_of_mut!(s.tile), addr_of_mut!(pi), &mut read, max, core::ptr::null_mut(), &mut mgr)
    } else {
        opj_t2_read_packet_data(&mut t2, addr_of_mut!(s.tile), addr_of_mut!(pi), src, &mut read, max, core::ptr::null_mut(), &mut mgr)
    };
    if cp.strict != 0 { assert!((r != 0) == fits); } else { assert!(r != 0); }
    assert!(r == 0 || read <= max);
    if fits {
        assert!(read as u64 == sum);
        // the segments take consecutive pieces of exactly their announced lengths
        let mut at = 0usize;
        b = 0;
        while b < 2 {
            assert!(dec[b].numnewpasses == 0);
            let mut i = 0;
            while i < CH {
                if i < count[b] {
                    let k = first[b] + i;
                    assert!(segs[b][k].numpasses == old[b][k].numpasses + old[b][k].numnewpasses);
                    if !skip {
                        let c = chunks[b][had[b] + i];
                        assert!(c.data == src.add(at) && c.len == old[b][k].newlen);
                        assert!(segs[b][k].len == old[b][k].len + old[b][k].newlen);
                        assert!(segs[b][k].real_num_passes == segs[b][k].numpasses);
                    }
                    at += old[b][k].newlen as usize;
                }
                i += 1;
            }
            if count[b] > 0 {
                assert!(dec[b].numsegs as usize == first[b] + count[b]);
                if !skip { assert!(dec[b].numchunks as usize == had[b] + count[b] && dec[b].real_num_segs == dec[b].numsegs); }
            } else if !skip { assert!(dec[b].numchunks as usize == had[b]); }
            b += 1;
        }
    } else if !skip {
        // whatever was kept lies inside the packet
        b = 0;
        while b < 2 {
            let mut i = 0;
            while i < 4 {
                if i >= had[b] && i < dec[b].numchunks as usize {
                    let c = chunks[b][i];
                    assert!(c.data as usize >= src as usize && c.data as usize + c.len as usize <= src as usize + max as usize);
                }
                i += 1;
            }
            b += 1;
        }
        if r != 0 { assert!(read == max); }
    }
    kani::cover!(fits && count[0] == 1 && count[1] == 2);
    kani::cover!(!fits && count[0] == 2);
    kani::cover!(empty0 && count[1] == 1);
}

//@ body_read: bounded(two code-blocks, at most 2 new segments each of at most 300 bytes) | fns=opj_t2_read_packet_data | what=segments take consecutive pieces of exactly the announced lengths, in order; a packet announcing more than there is fails (strict) or keeps only pieces inside it
#[kani::proof]
#[kani::unwind(6)]
fn body_read() { unsafe { bodies(false) } }

//@ body_skip: bounded(two code-blocks, at most 2 new segments each of at most 300 bytes) | fns=opj_t2_skip_packet_data | what=skipping a packet advances by exactly what reading it would, and fails in the same cases
#[kani::proof]
#[kani::unwind(6)]
fn body_skip() { unsafe { bodies(true) } }

//@ chunks_grow: complete | fns=opj_t2_read_packet_data | what=when the array of pieces is full it grows and keeps the earlier pieces
#[kani::proof]
#[kani::unwind(4)]
fn chunks_grow() {
    unsafe {
        let mut mgr = opj_event_mgr::default();
        let mut seg = any_seg();
        kani::assume(seg.numpasses < 100 && seg.numpasses < seg.maxpasses && seg.numnewpasses >= 1 && seg.numnewpasses <= 109 && seg.newlen <= 64 && seg.len < 1000);
        let old = seg;
        let mut dec = no_cblk();
        dec.segs = &mut seg;
        dec.numsegs = 1;
        dec.numnewpasses = seg.numnewpasses;
        let src = opj_malloc(128) as *mut u8;
        kani::assume(!src.is_null());
        let ch = opj_malloc(core::mem::size_of::<opj_tcd_seg_data_chunk_t>()) as *mut opj_tcd_seg_data_chunk_t;
        kani::assume(!ch.is_null());
        *ch = opj_tcd_seg_data_chunk_t { data: src.add(100), len: 5 };
        dec.chunks = ch;
        dec.numchunks = 1;
        dec.numchunksalloc = 1;
        let mut s = Side::new();
        s.wire(1, [false; 3], 1, 3);
        s.prec[0].cblks.dec = &mut dec;
        let mut pi: opj_pi_iterator_t = z();
        let mut cp: opj_cp_t = z();
        cp.strict = 1;
        let mut t2 = opj_t2_t { image: core::ptr::null_mut(), cp: addr_of_mut!(cp) };
        let mut read: u32 = 0;
        let r = opj_t2_read_packet_data(&mut t2, addr_of_mut!(s.tile), addr_of_mut!(pi), src, &mut read, 64, core::ptr::null_mut(), &mut mgr);
        if r == 0 { return; }        // the allocator refused
        assert!(dec.numchunks == 2 && dec.numchunksalloc >= 2);
        let a = *dec.chunks;
        let b = *dec.chunks.add(1);
        assert!(a.data == src.add(100) && a.len == 5);
        assert!(b.data == src && b.len == old.newlen && read == old.newlen);
        kani::cover!(b.len == 64);
    }
}

// ---- a packet is its header followed by its body
static mut H_SRC: *mut u8 = core::ptr::null_mut();
static mut H_MAX: u32 = 0;
static mut H_READ: u32 = 0;
static mut H_DATA: OPJ_BOOL = 0;
static mut H_OK: OPJ_BOOL = 0;
static mut D_SRC: *mut u8 = core::ptr::null_mut();
static mut D_MAX: u32 = 0;
static mut D_READ: u32 = 0;
static mut D_OK: OPJ_BOOL = 0;
static mut D_CALLS: u32 = 0;
unsafe fn s_header(_t2: *mut opj_t2_t, _tile: *mut opj_tcd_tile_t, _tcp: *mut opj_tcp_t, _pi: *mut opj_pi_iterator_t, present: *mut OPJ_BOOL,
    src: *mut OPJ_BYTE, read: *mut OPJ_UINT32, max: OPJ_UINT32, _info: *mut opj_packet_info_t, _m: &mut opj_event_mgr) -> OPJ_BOOL {
    H_SRC = src;
    H_MAX = max;
    H_READ = kani::any();
    kani::assume(H_READ <= max);
    *read = H_READ;
    H_DATA = kani::any();
    *present = H_DATA;
    H_OK = kani::any();
    H_OK
}
unsafe fn s_data(_t2: *mut opj_t2_t, _tile: *mut opj_tcd_tile_t, _pi: *mut opj_pi_iterator_t, src: *mut OPJ_BYTE, read: *mut OPJ_UINT32,
    max: OPJ_UINT32, _info: *mut opj_packet_info_t, _m: &mut opj_event_mgr) -> OPJ_BOOL {
    D_SRC = src;
    s_skip(_t2, _tile, _pi, read, max, _info, _m)
}
unsafe fn s_skip(_t2: *mut opj_t2_t, _tile: *mut opj_tcd_tile_t, _pi: *mut opj_pi_iterator_t, read: *mut OPJ_UINT32,
    max: OPJ_UINT32, _info: *mut opj_packet_info_t, _m: &mut opj_event_mgr) -> OPJ_BOOL {
    D_CALLS += 1;
    D_MAX = max;
    D_READ = kani::any();
    kani::assume(D_READ <= max);
    *read = D_READ;
    D_OK = kani::any();
    D_OK
}
unsafe fn packet(skip: bool) {
    let mut mgr = opj_event_mgr::default();
    let src = opj_malloc(1 << 12) as *mut u8;
    kani::assume(!src.is_null());
    let max: u32 = kani::any();
    kani::assume(max <= 1 << 12);
    let mut read: u32 = 55;
    let n = core::ptr::null_mut();
    let r = if skip {
        opj_t2_skip_packet(n, core::ptr::null_mut(), core::ptr::null_mut(), core::ptr::null_mut(), src, &mut read, max, core::ptr::null_mut(), &mut mgr)
    } else {
        opj_t2_decode_packet(n, core::ptr::null_mut(), core::ptr::null_mut(), core::ptr::null_mut(), src, &mut read, max, core::ptr::null_mut(), &mut mgr)
    };
    assert!(H_SRC == src && H_MAX == max);
    if H_OK == 0 { assert!(r == 0 && D_CALLS == 0); return; }
    if H_DATA == 0 { assert!(r == 1 && D_CALLS == 0 && read == H_READ); return; }
    assert!(D_CALLS == 1 && D_MAX == max - H_READ);
    if !skip { assert!(D_SRC == src.add(H_READ as usize)); }
    assert!((r != 0) == (D_OK != 0));
    if r != 0 { assert!(read == H_READ + D_READ); }
    kani::cover!(r != 0 && read == max && D_READ > 3);
    kani::cover!(r == 0);
}

//@ packet_decode: complete | fns=opj_t2_decode_packet | what=the body is read right after the header, with the space that is left, and both are counted
#[kani::proof]
#[kani::stub(opj_t2_read_packet_header, s_header)]
#[kani::stub(opj_t2_read_packet_data, s_data)]
fn packet_decode() { unsafe { packet(false) } }

//@ packet_skip: complete | fns=opj_t2_skip_packet | what=the same for a packet that is passed over
#[kani::proof]
#[kani::stub(opj_t2_read_packet_header, s_header)]
#[kani::stub(opj_t2_skip_packet_data, s_skip)]
fn packet_skip() { unsafe { packet(true) } }
