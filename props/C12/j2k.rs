// Contracts of the codestream's marker segments, ISO/IEC 15444-1 Annex A: what the encoder writes
// is the segment the tables define for its parameters, what the decoder takes from a segment of
// any bytes are the parameters the tables define, and a segment they do not allow is rejected.
use core::mem::ManuallyDrop as M;
fn zi<T>() -> T { unsafe { core::mem::zeroed() } }
const NC: usize = 3;
static mut OUT: [u8; 64] = [0; 64];
static mut NOUT: usize = 0;
fn write_out(_: *mut opj_stream_private_t, b: *const u8, n: usize, _: &mut opj_event_mgr) -> usize {
    unsafe {
        assert!(n <= 64);
        let mut i = 0;
        while i < n { OUT[i] = *b.add(i); i += 1; }
        NOUT = n;
    }
    n
}
struct Own<'a> {
    j: &'a mut opj_j2k, img: &'a mut opj_image_t,
    tcp: &'a mut opj_tcp_t, dtcp: &'a mut opj_tcp_t, tccp: &'a mut [opj_tccp_t; NC], dtccp: &'a mut [opj_tccp_t; NC],
    hdr: &'a mut [u8; 64],
}
macro_rules! own {
    ($o:ident) => {
        let (mut j, mut img, mut tcp, mut dtcp): (M<opj_j2k>, M<opj_image_t>, opj_tcp_t, opj_tcp_t) = (zi(), zi(), zi(), zi());
        let (mut tccp, mut dtccp, mut hdr): ([opj_tccp_t; NC], [opj_tccp_t; NC], [u8; 64]) = (zi(), zi(), [0; 64]);
        let mut $o = Own { j: &mut j, img: &mut img, tcp: &mut tcp, dtcp: &mut dtcp, tccp: &mut tccp, dtccp: &mut dtccp, hdr: &mut hdr };
    };
}
/// A codec with `nc` declared components (parameters for the first `NC` exist) and one tile.
fn setup(o: &mut Own, nc: u32) {
    o.img.numcomps = nc;
    o.j.m_private_image = &mut *o.img;
    o.j.m_cp.tcps = &mut *o.tcp;
    o.j.m_cp.tw = 1;
    o.j.m_cp.th = 1;
    o.tcp.tccps = o.tccp.as_mut_ptr();
    o.dtcp.tccps = o.dtccp.as_mut_ptr();
}
fn decoder(o: &mut Own, nc: u32, tile: bool) {
    setup(o, nc);
    let mut d: opj_j2k_dec_t = zi();
    d.m_default_tcp = &mut *o.dtcp;
    d.m_state = if tile { J2KState::TPH } else { J2KState::MH };
    o.j.m_specific_param = C2RustUnnamed_2 { m_decoder: d };
}
fn encoder(o: &mut Own, nc: u32) {
    setup(o, nc);
    let mut e: opj_j2k_enc_t = zi();
    e.m_header_tile_data = o.hdr.as_mut_ptr();
    e.m_header_tile_data_size = 64;
    o.j.m_specific_param = C2RustUnnamed_2 { m_encoder: e };
}
fn st() -> M<Stream> { zi() } // never used: the functions below hand it to opj_stream_write_data only
fn put(p: *mut u8, v: u32, n: u32) {
    unsafe {
        match n {
            1 => *p = v as u8,
            2 => { *p = (v >> 8) as u8; *p.add(1) = v as u8; }
            _ => { assert!(n == 4); *p = (v >> 24) as u8; *p.add(1) = (v >> 16) as u8; *p.add(2) = (v >> 8) as u8; *p.add(3) = v as u8; }
        }
    }
}
fn get(p: *const u8, v: *mut u32, n: u32) {
    unsafe {
        *v = match n {
            1 => *p as u32,
            2 => (*p as u32) << 8 | *p.add(1) as u32,
            _ => { assert!(n == 4); (*p as u32) << 24 | (*p.add(1) as u32) << 16 | (*p.add(2) as u32) << 8 | *p.add(3) as u32 }
        };
    }
}
fn no_msg(_: &opj_event_mgr, _: EventType, _: &str) -> i32 { 0 }
fn off(_: &opj_event_mgr, _: EventType) -> bool { false }
static mut COPIED: u32 = 0;
fn copied(_: &mut opj_j2k) { unsafe { COPIED += 1; } }
fn ev() -> M<opj_event_mgr> { M::new(opj_event_mgr::default()) }
fn be(p: usize, n: usize) -> u32 { unsafe { let mut v = 0; let mut i = 0; while i < n { v = v << 8 | OUT[p + i] as u32; i += 1; } v } }
fn le16(b: &[u8], p: usize) -> u32 { (b[p] as u32) << 8 | b[p + 1] as u32 }

// ---- coding style ------------------------------------------------------------------------------
const MAXP: usize = 7; // precinct bytes covered
/// SPcod / SPcoc of Table A.15, A.20 at `b`, `n` bytes: none if it is not allowed.
fn spcod(b: &[u8], n: usize, precincts: bool, reduce: u32) -> Option<(u32, u32, u32, u32, u32)> {
    if n < 5 { return None; }
    let (nr, w, h, sty, tr) = (b[0] as u32 + 1, b[1] as u32 + 2, b[2] as u32 + 2, b[3] as u32, b[4] as u32);
    if nr > 33 || reduce >= nr || w > 10 || h > 10 || w + h > 12 || sty & 0x80 != 0 || tr > 1 { return None; }
    if precincts {
        if n as u32 != 5 + nr { return None; }
        let mut i = 1;
        while i < MAXP { if (i as u32) < nr && (b[5 + i] & 15 == 0 || b[5 + i] >> 4 == 0) { return None; } i += 1; }
    } else if n != 5 { return None; }
    Some((nr, w, h, sty, tr))
}
fn check_tccp(t: &opj_tccp_t, s: (u32, u32, u32, u32, u32), b: &[u8], precincts: bool) {
    assert!(t.numresolutions == s.0 && t.cblkw == s.1 && t.cblkh == s.2 && t.cblksty == s.3 && t.qmfbid == s.4);
    assert!(t.csty & 1 == precincts as u32);
    let mut i = 0;
    while i < if precincts { MAXP } else { 33 } {
        if (i as u32) < s.0 {
            let want = if precincts { (b[5 + i] as u32 & 15, b[5 + i] as u32 >> 4) } else { (15, 15) };
            assert!(t.prcw[i] == want.0 && t.prch[i] == want.1);
        }
        i += 1;
    }
}
fn read_cod(tile: bool, precincts: bool) {
    own!(o);
    decoder(&mut o, NC as u32, tile);
    let (reduce, layers): (u32, u32) = (kani::any(), kani::any());
    o.j.m_cp.m_specific_param = C2RustUnnamed_0 { m_dec: opj_decoding_param_t { m_reduce: reduce, m_layer: layers } };
    let mut b: [u8; 11 + MAXP - 1] = kani::any();
    kani::assume(b[0] & 1 == precincts as u8);
    // no more resolutions than the bytes covered, unless the segment is refused for their number
    if precincts { kani::assume(b[5] < MAXP as u8 || b[5] > 32); b[0] |= 1; } else { b[0] &= !1; }
    let n: usize = kani::any();
    kani::assume(n <= 10 + MAXP);
    unsafe { COPIED = 0; }
    let r = opj_j2k_read_cod(o.j, b.as_mut_ptr(), n as u32, &mut ev()) != 0;
    let s = if n < 5 { None } else { spcod(&b[5..], n - 5, precincts, reduce) };
    let ok = n >= 10 && b[0] & !7 == 0 && le16(&b, 2) >= 1 && b[4] <= 1 && s.is_some();
    assert!(r == ok);
    if ok {
        unsafe { assert!(COPIED == 1); }
        let (t, c) = if tile { (&*o.tcp, &*o.tccp) } else { (&*o.dtcp, &*o.dtccp) };
        check_tccp(&c[0], s.unwrap(), &b[5..], precincts);
        assert!(c[1].csty & 1 == precincts as u32 && c[2].csty & 1 == precincts as u32);
        assert!(t.csty == b[0] as u32 && t.cod && t.numlayers == le16(&b, 2) && t.mct == b[4] as u32);
        assert!(t.prg == if b[1] <= 4 { b[1] as i32 } else { -1 });
        assert!(t.num_layers_to_decode == if layers != 0 { layers } else { t.numlayers });
    }
    kani::cover!(ok);
    kani::cover!(!ok && n > 10);
}

//@ cod_main: complete | fns=opj_j2k_read_cod,opj_j2k_read_SPCod_SPCoc | what=a COD segment of any bytes sets the parameters of the tile, or in the main header the default ones, to what Tables A.12 to A.21 say, or is rejected because they do not allow it (main header, default precincts)
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_copy_tile_component_parameters, copied)]
fn cod_main() {
    read_cod(false, false);
}

//@ cod_tile: bounded(segments of up to 17 bytes, so custom precincts for up to 7 resolutions) | fns=opj_j2k_read_cod,opj_j2k_read_SPCod_SPCoc | what=a COD segment of any bytes sets the parameters of the tile, or in the main header the default ones, to what Tables A.12 to A.21 say, or is rejected because they do not allow it (tile header, custom precincts)
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_copy_tile_component_parameters, copied)]
fn cod_tile() {
    read_cod(true, true);
}

fn copy_cod(tile: bool, nr: u32) {
    own!(o);
    decoder(&mut o, NC as u32, tile);
    let t = if tile { &mut *o.tccp } else { &mut *o.dtccp };
    let mut i = 0;
    while i < 33 { t[0].prcw[i] = kani::any(); t[0].prch[i] = kani::any(); i += 1; }
    t[0].numresolutions = nr;
    t[0].cblkw = kani::any(); t[0].cblkh = kani::any(); t[0].cblksty = kani::any(); t[0].qmfbid = kani::any();
    let a = t[0];
    opj_j2k_copy_tile_component_parameters(o.j);
    let t = if tile { &*o.tccp } else { &*o.dtccp };
    let mut c = 0;
    while c < NC {
        let b = &t[c];
        assert!(b.numresolutions == nr && b.cblkw == a.cblkw && b.cblkh == a.cblkh && b.cblksty == a.cblksty && b.qmfbid == a.qmfbid);
        i = 0;
        while i < nr as usize { assert!(b.prcw[i] == a.prcw[i] && b.prch[i] == a.prch[i]); i += 1; }
        c += 1;
    }
}
//@ cod_copy: bounded(three components; 1, 6 and 33 resolutions) | fns=opj_j2k_copy_tile_component_parameters | what=COD applies to every component: block sizes and styles, transformation and the precinct sizes of every resolution
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn cod_copy() {
    copy_cod(true, 33);
    copy_cod(false, 6);
    copy_cod(false, 1);
    kani::cover!(true);
}

/// bytes of a component number and that number
fn number(b: &mut [u8], wide: bool, c: u16) -> usize {
    if wide { b[0] = (c >> 8) as u8; b[1] = c as u8; 2 } else { b[0] = c as u8; 1 }
}
fn read_coc(tile: bool, wide: bool, precincts: bool, c: u16) {
    own!(o);
    decoder(&mut o, if wide { 257 } else if c == 1 { 256 } else { NC as u32 }, tile);
    let mut b: [u8; 16] = kani::any();
    let at = number(&mut b, wide, c);
    let n: usize = kani::any();
    kani::assume(n <= at + 6 + MAXP);
    if precincts { b[at] |= 1; kani::assume(b[at + 1] < MAXP as u8 || b[at + 1] > 32); } else { b[at] &= !1; }
    let r = opj_j2k_read_coc(o.j, b.as_mut_ptr(), n as u32, &mut ev()) != 0;
    let s = if n < at + 1 { None } else { spcod(&b[at + 1..], n - at - 1, precincts, 0) };
    let ok = s.is_some() && (c as usize) < NC;
    assert!(r == ok);
    let t = if tile { &*o.tccp } else { &*o.dtccp };
    if ok { check_tccp(&t[c as usize], s.unwrap(), &b[at + 1..], precincts); }
    let mut d = 0;
    while d < NC {
        if d != c as usize { assert!(t[d].numresolutions == 0 && t[d].cblkw == 0 && t[d].csty == 0 && t[d].prcw[0] == 0); }
        d += 1;
    }
    kani::cover!(ok == ((c as usize) < NC));
    kani::cover!(!ok && n > at + 10);
}
//@ coc_tile: bounded(up to 7 resolutions with custom precincts) | fns=opj_j2k_read_coc,opj_j2k_read_SPCod_SPCoc | what=a COC segment of any bytes sets the parameters of its component, and of no other, to what Tables A.22 and A.23 say, or is rejected (tile header, one byte number)
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn coc_tile() {
    read_coc(true, false, true, 1);
}

//@ coc_main: bounded(component 2 of 300) | fns=opj_j2k_read_coc,opj_j2k_read_SPCod_SPCoc | what=a COC segment of any bytes sets the parameters of its component, and of no other, to what Tables A.22 and A.23 say, or is rejected (main header, two byte number)
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn coc_main() {
    read_coc(false, true, false, 2);
}

//@ coc_none: bounded(component 3 of 3) | fns=opj_j2k_read_coc,opj_j2k_read_SPCod_SPCoc | what=a COC segment of any bytes sets the parameters of its component, and of no other, to what Tables A.22 and A.23 say, or is rejected (no such component)
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn coc_none() {
    read_coc(true, false, false, 3);
}

/// any parameters an encoder can have
fn any_tccp(t: &mut opj_tccp_t, nr: u32, csty: u32) {
    t.csty = csty;
    t.numresolutions = nr;
    t.cblkw = kani::any();
    t.cblkh = kani::any();
    kani::assume(t.cblkw >= 2 && t.cblkw <= 10 && t.cblkh >= 2 && t.cblkh <= 10);
    t.cblksty = kani::any::<u8>() as u32;
    t.qmfbid = kani::any::<bool>() as u32;
    let mut i = 0;
    while i < nr as usize {
        t.prcw[i] = kani::any();
        t.prch[i] = kani::any();
        kani::assume(t.prcw[i] < 16 && t.prch[i] < 16);
        i += 1;
    }
}
fn check_spcod(t: &opj_tccp_t, at: usize) -> usize {
    assert!(be(at, 1) == t.numresolutions - 1 && be(at + 1, 1) == t.cblkw - 2 && be(at + 2, 1) == t.cblkh - 2);
    assert!(be(at + 3, 1) == t.cblksty && be(at + 4, 1) == t.qmfbid);
    if t.csty & 1 == 0 { return at + 5; }
    let mut i = 0;
    while i < t.numresolutions as usize { assert!(be(at + 5 + i, 1) == t.prcw[i] | t.prch[i] << 4); i += 1; }
    at + 5 + t.numresolutions as usize
}
fn write_cod(nr: u32, csty: u32) {
    own!(o);
    encoder(&mut o, NC as u32);
    any_tccp(&mut o.tccp[0], nr, csty & 1);
    o.tcp.csty = csty;
    o.tcp.prg = kani::any::<u8>() as i32;
    kani::assume(o.tcp.prg <= 4);
    o.tcp.numlayers = kani::any::<u16>() as u32;
    o.tcp.mct = kani::any::<bool>() as u32;
    assert!(opj_j2k_write_cod(o.j, &mut st(), &mut ev()) != 0);
    assert!(be(0, 2) == 0xff52 && be(4, 1) == o.tcp.csty && be(5, 1) == o.tcp.prg as u32 && be(6, 2) == o.tcp.numlayers && be(8, 1) == o.tcp.mct);
    let end = check_spcod(&o.tccp[0], 9);
    unsafe { assert!(NOUT == end && be(2, 2) as usize == end - 2); }
    kani::cover!(o.tcp.mct == 1);
}
//@ cod_write: bounded(6 resolutions) | fns=opj_j2k_write_cod,opj_j2k_write_SPCod_SPCoc,opj_j2k_get_SPCod_SPCoc_size | what=the COD segment written is the one Tables A.12 to A.21 define for the tile's parameters, with its exact length, without and with custom precincts
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn cod_write() {
    write_cod(6, 6);
    write_cod(6, 7);
}

//@ cod_write_33: bounded(33 resolutions) | fns=opj_j2k_write_cod,opj_j2k_write_SPCod_SPCoc,opj_j2k_get_SPCod_SPCoc_size | what=the COD segment written is the one Tables A.12 to A.21 define for the tile's parameters, with its exact length for the most resolutions there can be
#[kani::proof]
#[kani::unwind(50)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn cod_write_33() {
    write_cod(33, 1);
}

fn write_coc(wide: bool, c: u32, nr: u32, csty: u32) {
    own!(o);
    encoder(&mut o, if wide { 257 } else { 256 });
    any_tccp(&mut o.tccp[c as usize], nr, csty);
    assert!(opj_j2k_write_coc(o.j, c, &mut st(), &mut ev()) != 0);
    let w = if wide { 2 } else { 1 };
    assert!(be(0, 2) == 0xff53 && be(4, w) == c && be(4 + w, 1) == csty);
    let end = check_spcod(&o.tccp[c as usize], 5 + w);
    unsafe { assert!(NOUT == end && be(2, 2) as usize == end - 2); }
    kani::cover!(o.tccp[c as usize].qmfbid == 1);
}
//@ coc_write: bounded(1 and 6 resolutions) | fns=opj_j2k_write_coc,opj_j2k_write_coc_in_memory,opj_j2k_write_SPCod_SPCoc | what=the COC segment written is the one Tables A.22 and A.23 define for the component's parameters, with its exact length, for both widths of the component number
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn coc_write() {
    write_coc(false, 1, 6, 0);
    write_coc(true, 2, 6, 1);
    write_coc(false, 2, 1, 1);
}

// ---- quantization ------------------------------------------------------------------------------
fn quant_read(t: &opj_tccp_t, b: &[u8], style: u8, nb: usize) {
    assert!(t.qntsty == style as u32 && t.numgbits == b[0] as u32 >> 5);
    let mut i = 0;
    while i < nb {
        // Tables A.28 to A.30; equation E-5 for derived steps
        let (e, m) = match style {
            0 => ((b[1 + i] >> 3) as i32, 0),
            1 => {
                let v = le16(b, 1) as i32;
                let d = if i == 0 { 0 } else { (i as i32 - 1) / 3 };
                (if v >> 11 > d { (v >> 11) - d } else { 0 }, v & 0x7ff)
            }
            _ => { let v = le16(b, 1 + 2 * i) as i32; (v >> 11, v & 0x7ff) }
        };
        assert!(t.stepsizes[i].expn == e && t.stepsizes[i].mant == m);
        i += 1;
    }
}
fn bands(n: usize, style: u8) -> Option<usize> {
    if n < 1 { return None; }
    match style { 0 => Some(n - 1), 1 => if n == 3 { Some(97) } else { None }, _ => if n % 2 == 1 { Some((n - 1) / 2) } else { None } }
}
fn read_qcd(tile: bool, style: u8, n: usize) {
    own!(o);
    decoder(&mut o, NC as u32, tile);
    let mut b: [u8; 20] = kani::any();
    b[0] = b[0] & 0xe0 | style;
    unsafe { COPIED = 0; }
    let r = opj_j2k_read_qcd(o.j, b.as_mut_ptr(), n as u32, &mut ev()) != 0;
    let nb = bands(n, style);
    assert!(r == nb.is_some());
    if r {
        unsafe { assert!(COPIED == 1); }
        quant_read(if tile { &o.tccp[0] } else { &o.dtccp[0] }, &b, style, nb.unwrap());
    }
}
//@ qcd_none: bounded(0, 1, 5 and 17 bands) | fns=opj_j2k_read_qcd,opj_j2k_read_SQcd_SQcc | what=a QCD segment sets quantization style, guard bits and every band's exponent and mantissa to what Tables A.27 to A.30 say, or is rejected for its length (no quantization)
#[kani::proof]
#[kani::unwind(20)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_copy_tile_quantization_parameters, copied)]
fn qcd_none() {
    read_qcd(true, 0, 0);
    read_qcd(false, 0, 1);
    read_qcd(false, 0, 5);
    read_qcd(true, 0, 18);
    kani::cover!(true);
}

//@ qcd_derived: complete | fns=opj_j2k_read_qcd,opj_j2k_read_SQcd_SQcc | what=a QCD segment sets quantization style, guard bits and every band's exponent and mantissa to what Tables A.27 to A.30 say, or is rejected for its length (scalar derived: all 97 bands by equation E-5)
#[kani::proof]
#[kani::unwind(98)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_copy_tile_quantization_parameters, copied)]
fn qcd_derived() {
    read_qcd(true, 1, 3);
    kani::cover!(true);
}

//@ qcd_derived_length: bounded(segments of 1, 2 and 4 bytes) | fns=opj_j2k_read_qcd,opj_j2k_read_SQcd_SQcc | what=a QCD segment sets quantization style, guard bits and every band's exponent and mantissa to what Tables A.27 to A.30 say, or is rejected for its length (scalar derived)
#[kani::proof]
#[kani::unwind(98)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_copy_tile_quantization_parameters, copied)]
fn qcd_derived_length() {
    read_qcd(true, 1, 2);
    read_qcd(true, 1, 4);
    kani::cover!(true);
}

//@ qcd_expounded: bounded(0, 1, 7 and 9 bands) | fns=opj_j2k_read_qcd,opj_j2k_read_SQcd_SQcc | what=a QCD segment sets quantization style, guard bits and every band's exponent and mantissa to what Tables A.27 to A.30 say, or is rejected for its length (scalar expounded)
#[kani::proof]
#[kani::unwind(20)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_copy_tile_quantization_parameters, copied)]
fn qcd_expounded() {
    read_qcd(true, 2, 1);
    read_qcd(false, 2, 3);
    read_qcd(false, 2, 15);
    read_qcd(true, 2, 16);
    read_qcd(true, 2, 19);
    kani::cover!(true);
}

fn copy_qcd(tile: bool) {
    own!(o);
    decoder(&mut o, NC as u32, tile);
    let t = if tile { &mut *o.tccp } else { &mut *o.dtccp };
    let mut i = 0;
    while i < 97 { t[0].stepsizes[i].expn = kani::any(); t[0].stepsizes[i].mant = kani::any(); i += 1; }
    t[0].qntsty = kani::any(); t[0].numgbits = kani::any();
    let a = t[0];
    opj_j2k_copy_tile_quantization_parameters(o.j);
    let t = if tile { &*o.tccp } else { &*o.dtccp };
    let mut c = 1;
    while c < NC {
        assert!(t[c].qntsty == a.qntsty && t[c].numgbits == a.numgbits);
        let i: usize = kani::any();
        kani::assume(i < 97);
        assert!(t[c].stepsizes[i].expn == a.stepsizes[i].expn && t[c].stepsizes[i].mant == a.stepsizes[i].mant);
        c += 1;
    }
}
//@ qcd_copy: bounded(three components) | fns=opj_j2k_copy_tile_quantization_parameters | what=QCD applies to every component: style, guard bits and the steps of all 97 bands
#[kani::proof]
#[kani::unwind(98)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn qcd_copy() {
    copy_qcd(true);
    copy_qcd(false);
    kani::cover!(true);
}

fn read_qcc(tile: bool, wide: bool, c: u16, style: u8, n: usize) {
    own!(o);
    decoder(&mut o, if wide { 257 } else if c == 1 { 256 } else { NC as u32 }, tile);
    let mut b: [u8; 20] = kani::any();
    let at = number(&mut b, wide, c);
    b[at] = b[at] & 0xe0 | style;
    let r = opj_j2k_read_qcc(o.j, b.as_mut_ptr(), n as u32, &mut ev()) != 0;
    let nb = if n < at { None } else { bands(n - at, style) };
    assert!(r == (nb.is_some() && (c as usize) < NC));
    let t = if tile { &*o.tccp } else { &*o.dtccp };
    if r { quant_read(&t[c as usize], &b[at..], style, nb.unwrap()); }
    let mut d = 0;
    while d < NC {
        if d != c as usize { assert!(t[d].qntsty == 0 && t[d].numgbits == 0 && t[d].stepsizes[0].expn == 0 && t[d].stepsizes[1].mant == 0); }
        d += 1;
    }
}
//@ qcc_read: bounded(components 1 of 256, 0, 2 and 3 of 3, 2 and 300 of 257; 0 to 7 bands) | fns=opj_j2k_read_qcc,opj_j2k_read_SQcd_SQcc | what=a QCC segment sets the quantization of its component and of no other, or is rejected
#[kani::proof]
#[kani::unwind(98)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn qcc_read() {
    read_qcc(true, false, 1, 2, 8);
    read_qcc(false, true, 2, 0, 10);
    read_qcc(true, false, 3, 0, 6);
    read_qcc(true, true, 300, 2, 9);
    read_qcc(false, false, 0, 0, 1);
    read_qcc(false, false, 2, 2, 9);
    kani::cover!(true);
}

fn any_quant(t: &mut opj_tccp_t, nr: u32, style: u32) {
    t.numresolutions = nr;
    t.qntsty = style;
    t.numgbits = kani::any();
    kani::assume(t.numgbits < 8);
    let mut i = 0;
    while i < 3 * nr as usize - 2 {
        t.stepsizes[i].expn = kani::any();
        t.stepsizes[i].mant = kani::any();
        kani::assume(t.stepsizes[i].expn >= 0 && t.stepsizes[i].expn < 32 && t.stepsizes[i].mant >= 0 && t.stepsizes[i].mant < 2048);
        i += 1;
    }
}
fn check_sqcd(t: &opj_tccp_t, at: usize) -> usize {
    assert!(be(at, 1) == t.qntsty | t.numgbits << 5);
    let nb = if t.qntsty == 1 { 1 } else { 3 * t.numresolutions as usize - 2 };
    let w = if t.qntsty == 0 { 1 } else { 2 };
    let mut i = 0;
    while i < nb {
        let (e, m) = (t.stepsizes[i].expn as u32, t.stepsizes[i].mant as u32);
        assert!(be(at + 1 + w * i, w) == if w == 1 { e << 3 } else { e << 11 | m });
        i += 1;
    }
    at + 1 + w * nb
}
fn write_qcd(nr: u32, style: u32) {
    own!(o);
    encoder(&mut o, NC as u32);
    any_quant(&mut o.tccp[0], nr, style);
    assert!(opj_j2k_write_qcd(o.j, &mut st(), &mut ev()) != 0);
    assert!(be(0, 2) == 0xff5c);
    let end = check_sqcd(&o.tccp[0], 4);
    unsafe { assert!(NOUT == end && be(2, 2) as usize == end - 2); }
}
fn write_qcc(wide: bool, c: u32, nr: u32, style: u32) {
    own!(o);
    encoder(&mut o, if wide { 257 } else { 256 });
    any_quant(&mut o.tccp[c as usize], nr, style);
    assert!(opj_j2k_write_qcc(o.j, c, &mut st(), &mut ev()) != 0);
    let w = if wide { 2 } else { 1 };
    assert!(be(0, 2) == 0xff5d && be(4, w) == c);
    let end = check_sqcd(&o.tccp[c as usize], 4 + w);
    unsafe { assert!(NOUT == end && be(2, 2) as usize == end - 2); }
}
//@ qcd_write: bounded(1, 6 and 3 resolutions) | fns=opj_j2k_write_qcd,opj_j2k_write_SQcd_SQcc,opj_j2k_get_SQcd_SQcc_size | what=the QCD segment written is the one Tables A.27 to A.30 define for the tile's quantization, with its exact length, in each of the three styles
#[kani::proof]
#[kani::unwind(66)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn qcd_write() {
    write_qcd(1, 0);
    write_qcd(6, 0);
    write_qcd(6, 1);
    write_qcd(6, 2);
    kani::cover!(true);
}

//@ qcc_write: bounded(1 to 6 resolutions) | fns=opj_j2k_write_qcc,opj_j2k_write_qcc_in_memory,opj_j2k_write_SQcd_SQcc | what=the QCC segment written is the one Table A.31 defines for the component's quantization, with its exact length, for both widths of the component number
#[kani::proof]
#[kani::unwind(66)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn qcc_write() {
    write_qcc(false, 2, 6, 0);
    write_qcc(true, 1, 3, 2);
    write_qcc(true, 2, 4, 1);
    kani::cover!(true);
}

fn compare(n0: u32, n1: u32, c0: u32, c1: u32, q0: u32, q1: u32) {
    own!(o);
    encoder(&mut o, NC as u32);
    any_tccp(&mut o.tccp[0], n0, c0);
    any_tccp(&mut o.tccp[1], n1, c1);
    any_quant(&mut o.tccp[0], n0, q0);
    any_quant(&mut o.tccp[1], n1, q1);
    let (a, b) = (o.tccp[0], o.tccp[1]);
    let mut same = n0 == n1 && a.csty == b.csty && a.cblkw == b.cblkw && a.cblkh == b.cblkh && a.cblksty == b.cblksty && a.qmfbid == b.qmfbid;
    let mut i = 0;
    while i < n0 as usize {
        // the segments hold precinct sizes only where custom precincts are used
        if c0 & 1 == 0 { kani::assume(a.prcw[i] == b.prcw[i] && a.prch[i] == b.prch[i]); }
        if a.prcw[i] != b.prcw[i] || a.prch[i] != b.prch[i] { same = false; }
        i += 1;
    }
    assert!((opj_j2k_compare_coc(o.j, 0, 1) != 0) == same);
    let nb = if q0 == 1 { 1 } else { 3 * n0 as usize - 2 };
    let mut q = q0 == q1 && a.numgbits == b.numgbits && (n0 == n1 || q0 == 1);
    i = 0;
    while i < nb {
        if a.stepsizes[i].expn != b.stepsizes[i].expn || q0 != 0 && a.stepsizes[i].mant != b.stepsizes[i].mant { q = false; }
        i += 1;
    }
    assert!((opj_j2k_compare_qcc(o.j, 0, 1) != 0) == q);
    kani::cover!(same == (n0 == n1 && c0 == c1) && q == (q0 == q1));
}
//@ compared: bounded(2 and 3 resolutions) | fns=opj_j2k_compare_coc,opj_j2k_compare_qcc,opj_j2k_compare_SPCod_SPCoc,opj_j2k_compare_SQcd_SQcc | what=a component's COC or QCC is found equal to component 0's, and so left out, exactly when the segments written for them would say the same
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn compared() {
    compare(3, 3, 1, 1, 0, 0);
    compare(3, 3, 0, 0, 2, 2);
    compare(3, 2, 1, 1, 1, 1);
    compare(2, 2, 0, 1, 2, 1);
}

// ---- progression order changes, regions ---------------------------------------------------------
fn read_poc(tile: bool, wide: bool, had: bool, old: u32) {
    own!(o);
    decoder(&mut o, if wide { 257 } else if old == 29 { 256 } else { NC as u32 }, tile);
    let nc = o.img.numcomps;
    let mut b: [u8; 20] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 18);
    let lay: u32 = kani::any();
    kani::assume(lay >= 1 && lay <= 65535);
    { let t = if tile { &mut *o.tcp } else { &mut *o.dtcp }; t.POC = had; t.numpocs = old; t.numlayers = lay; }
    let r = opj_j2k_read_poc(o.j, b.as_mut_ptr(), n as u32, &mut ev()) != 0;
    let w = if wide { 2 } else { 1 };
    let size = 5 + 2 * w;
    let first = if had { old as usize + 1 } else { 0 };
    let k = n / size;
    let ok = k > 0 && n % size == 0 && first + k < 32;
    assert!(r == ok);
    if ok {
        let t = if tile { &*o.tcp } else { &*o.dtcp };
        assert!(t.POC && t.numpocs as usize == first + k - 1);
        let mut i = 0;
        while i < 2 && i < k {
            let p = &t.pocs[first + i];
            let at = i * size;
            let cw = |q: usize| if wide { le16(&b, q) } else { b[q] as u32 };
            assert!(p.resno0 == b[at] as u32 && p.compno0 == cw(at + 1));
            assert!(p.layno1 == le16(&b, at + 1 + w).min(lay) && p.resno1 == b[at + 3 + w] as u32);
            assert!(p.compno1 == cw(at + 4 + w).min(nc) && p.prg == b[at + 4 + 2 * w] as i32);
            i += 1;
        }
    }
    kani::cover!(ok && (k == 2 || first == 30));
    kani::cover!(!ok && k > 0);
}
//@ poc_read: bounded(two changes in the segment; 0, 1 or 30 before it) | fns=opj_j2k_read_poc | what=a POC segment of any bytes appends its progressions as Table A.32 says, clamped to the layers and components there are, or is rejected for its length or for exceeding 31 progressions
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn poc_read() {
    read_poc(true, false, true, 0);
    read_poc(false, true, false, 0);
    read_poc(true, false, true, 29);
}

fn write_poc(wide: bool, k: u32) {
    own!(o);
    encoder(&mut o, if wide { 257 } else { 256 });
    o.tcp.numpocs = k - 1;
    o.tcp.numlayers = 65535;
    o.tccp[0].numresolutions = 33;
    let mut i = 0;
    while i < k as usize {
        let p = &mut o.tcp.pocs[i];
        p.resno0 = kani::any(); p.compno0 = kani::any(); p.layno1 = kani::any(); p.resno1 = kani::any(); p.compno1 = kani::any(); p.prg = kani::any();
        kani::assume(p.resno0 < 33 && p.compno0 < 255 && p.layno1 <= 65535 && p.resno1 <= 33 && p.compno1 <= 255 && p.prg >= 0 && p.prg <= 4);
        i += 1;
    }
    let before = [o.tcp.pocs[0], o.tcp.pocs[1], o.tcp.pocs[2]];
    assert!(opj_j2k_write_poc(o.j, &mut st(), &mut ev()) != 0);
    let w = if wide { 2 } else { 1 };
    let size = 5 + 2 * w;
    unsafe { assert!(NOUT == 4 + size * k as usize && be(0, 2) == 0xff5f && be(2, 2) as usize == NOUT - 2); }
    i = 0;
    while i < k as usize {
        let (p, at) = (before[i], 4 + i * size);
        assert!(be(at, 1) == p.resno0 && be(at + 1, w) == p.compno0 && be(at + 1 + w, 2) == p.layno1);
        assert!(be(at + 3 + w, 1) == p.resno1 && be(at + 4 + w, w) == p.compno1 && be(at + 4 + 2 * w, 1) == p.prg as u32);
        i += 1;
    }
}
//@ poc_write: bounded(1 to 3 progressions) | fns=opj_j2k_write_poc,opj_j2k_write_poc_in_memory | what=the POC segment written is the one Table A.32 defines for the tile's progressions, with its exact length
#[kani::proof]
#[kani::unwind(40)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_read_bytes, get)]
fn poc_write() {
    write_poc(false, 3);
    write_poc(true, 1);
    write_poc(true, 2);
    kani::cover!(true);
}

fn write_rgn(wide: bool, c: u32) {
    own!(o);
    let w = if wide { 2 } else { 1 };
    encoder(&mut o, if wide { 257 } else { 256 });
    let shift = kani::any::<u8>() as i32;
    o.tccp[c as usize].roishift = shift;
    let nc = o.img.numcomps;
    assert!(opj_j2k_write_rgn(o.j, 0, c, nc, &mut st(), &mut ev()) != 0);
    unsafe { assert!(NOUT == 6 + w && be(0, 2) == 0xff5e && be(2, 2) as usize == 4 + w && be(4, w) == c && be(4 + w, 1) == 0 && be(5 + w, 1) == shift as u32); }
}
fn read_rgn(wide: bool, tile: bool, c: u16) {
    own!(o);
    let w = if wide { 2 } else { 1 };
    decoder(&mut o, if wide { 257 } else if c == 1 { 256 } else { NC as u32 }, tile);
    let mut b: [u8; 6] = kani::any();
    number(&mut b, wide, c);
    let n: u32 = kani::any();
    let r = opj_j2k_read_rgn(o.j, b.as_mut_ptr(), n, &mut ev()) != 0;
    assert!(r == (n as usize == 2 + w && c < NC as u16));
    let t = if tile { &*o.tccp } else { &*o.dtccp };
    let mut d = 0;
    while d < NC {
        assert!(t[d].roishift == if r && d == c as usize { b[w + 1] as i32 } else { 0 });
        d += 1;
    }
    kani::cover!(r == (c < NC as u16));
}
//@ rgn_write: bounded(components 1 of 256 and 2 of 257) | fns=opj_j2k_write_rgn | what=an RGN segment is written as Table A.24 says for every shift
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn rgn_write() {
    write_rgn(false, 1);
    write_rgn(true, 2);
    kani::cover!(true);
}

//@ rgn_read: bounded(components 1 of 256, 3 of 3, 2 and 300 of 257) | fns=opj_j2k_read_rgn | what=an RGN segment of any bytes sets the shift of its component only, or is rejected
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn rgn_read() {
    read_rgn(false, true, 1);
    read_rgn(true, false, 2);
    read_rgn(false, false, 3);
    read_rgn(true, true, 300);
}

// ---- image and tile size -------------------------------------------------------------------------
fn le32(b: &[u8], p: usize) -> u32 { le16(b, p) << 16 | le16(b, p + 2) }
fn write_siz(nc: u32) {
    own!(o);
    encoder(&mut o, nc);
    let mut ic: [M<opj_image_comp_t>; 3] = zi();
    o.img.comps = ic.as_mut_ptr() as *mut opj_image_comp_t;
    let mut i = 0;
    while i < nc as usize {
        ic[i].prec = kani::any(); ic[i].sgnd = kani::any(); ic[i].dx = kani::any(); ic[i].dy = kani::any();
        kani::assume(ic[i].prec >= 1 && ic[i].prec <= 38 && ic[i].sgnd <= 1 && ic[i].dx >= 1 && ic[i].dx < 256 && ic[i].dy >= 1 && ic[i].dy < 256);
        i += 1;
    }
    o.img.x0 = kani::any(); o.img.y0 = kani::any(); o.img.x1 = kani::any(); o.img.y1 = kani::any();
    let c = &mut o.j.m_cp;
    c.rsiz = kani::any(); c.tx0 = kani::any(); c.ty0 = kani::any(); c.tdx = kani::any(); c.tdy = kani::any();
    assert!(opj_j2k_write_siz(o.j, &mut st(), &mut ev()) != 0);
    let c = &o.j.m_cp;
    unsafe { assert!(NOUT == 40 + 3 * nc as usize && be(0, 2) == 0xff51 && be(2, 2) as usize == NOUT - 2); }
    assert!(be(4, 2) == c.rsiz as u32 && be(6, 4) == o.img.x1 && be(10, 4) == o.img.y1 && be(14, 4) == o.img.x0 && be(18, 4) == o.img.y0);
    assert!(be(22, 4) == c.tdx && be(26, 4) == c.tdy && be(30, 4) == c.tx0 && be(34, 4) == c.ty0 && be(38, 2) == nc);
    i = 0;
    while i < nc as usize {
        let at = 40 + 3 * i;
        assert!(be(at, 1) == ic[i].prec - 1 | ic[i].sgnd << 7 && be(at + 1, 1) == ic[i].dx && be(at + 2, 1) == ic[i].dy);
        i += 1;
    }
}
//@ siz_write: bounded(1 and 3 components) | fns=opj_j2k_write_siz | what=the SIZ segment written is the one Tables A.9 to A.11 define for the image, tile grid and components
#[kani::proof]
#[kani::unwind(52)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn siz_write() {
    write_siz(1);
    write_siz(3);
    kani::cover!(true);
}

static mut POOL: [*mut core::ffi::c_void; 5] = [core::ptr::null_mut(); 5]; // components, tiles, tile components, other records
static mut TOOK: usize = 0;
static mut TILES: (u32, u32) = (0, 0);
static mut ASKED: [(u32, u32); 2] = [(0, 0); 2];
static mut NASKED: usize = 0;
static mut UPDATED: bool = false;
unsafe fn pool(n: usize, size: usize) -> *mut core::ffi::c_void {
    if size == core::mem::size_of::<opj_image_comp_t>() { assert!(n <= 2); return POOL[0]; }
    if size == core::mem::size_of::<opj_tcp_t>() { assert!(n == (TILES.0 * TILES.1) as usize); return POOL[1]; }
    if size == core::mem::size_of::<opj_tccp_t>() {
        assert!(n <= 2 && TOOK < 2);
        TOOK += 1;
        return POOL[1 + TOOK];
    }
    POOL[4]
}
fn tiles(a: u32, b: u32) -> u32 {
    // contract of opj_uint_ceildiv (C05): which quotient is asked for is recorded
    unsafe {
        assert!(b != 0 && NASKED < 2);
        ASKED[NASKED] = (a, b);
        NASKED += 1;
        if NASKED == 1 { TILES.0 } else { TILES.1 }
    }
}
fn updated(_: *mut opj_image_t, _: *const opj_cp) { unsafe { UPDATED = true; } }
fn read_siz(n: usize, tw: u32, th: u32) {
    own!(o);
    decoder(&mut o, 0, false);
    let mut ic: [M<opj_image_comp_t>; 2] = zi();
    let mut t2: [opj_tccp_t; 2] = zi();
    let mut rec = [0u64; 2];
    unsafe {
        POOL = [ic.as_mut_ptr() as _, &mut *o.tcp as *mut opj_tcp_t as _, o.dtccp.as_mut_ptr() as _, t2.as_mut_ptr() as _, rec.as_mut_ptr() as _];
        TOOK = 0; TILES = (tw, th); NASKED = 0; UPDATED = false;
    }
    let reduce: u32 = kani::any();
    o.j.m_cp.m_specific_param = C2RustUnnamed_0 { m_dec: opj_decoding_param_t { m_reduce: reduce, m_layer: 0 } };
    o.j.ihdr_w = kani::any();
    o.j.ihdr_h = kani::any();
    let mut b: [u8; 44] = kani::any();
    let nc: usize = if n >= 36 { (n - 36) / 3 } else { 0 };
    let c = le16(&b, 34);
    if n == 42 { b[34] = 0; b[35] = 2; }
    let r = opj_j2k_read_siz(o.j, b.as_mut_ptr(), n as u32, &mut ev()) != 0;
    let (x1, y1, x0, y0) = (le32(&b, 2), le32(&b, 6), le32(&b, 10), le32(&b, 14));
    let (dx, dy, tx, ty) = (le32(&b, 18), le32(&b, 22), le32(&b, 26), le32(&b, 30));
    let mut ok = n >= 36 && n % 3 == 0 && le16(&b, 34) as usize == nc && nc == 2;
    ok &= x0 < x1 && y0 < y1 && dx > 0 && dy > 0;
    // the first tile is not empty and holds the image's corner
    ok &= tx <= x0 && ty <= y0 && tx as u64 + dx as u64 > x0 as u64 && ty as u64 + dy as u64 > y0 as u64;
    if o.j.ihdr_w > 0 && o.j.ihdr_h > 0 { ok &= x1.wrapping_sub(x0) == o.j.ihdr_w && y1.wrapping_sub(y0) == o.j.ihdr_h; }
    let mut i = 0;
    while i < 2 { let s = 36 + 3 * i; ok &= b[s] & 0x7f < 31 && b[s + 1] > 0 && b[s + 2] > 0; i += 1; }
    ok &= tw > 0 && th > 0 && tw as u64 * th as u64 <= 65535;
    assert!(r == ok);
    if ok {
        let j = &*o.j;
        assert!(j.m_cp.rsiz as u32 == le16(&b, 0) && o.img.x1 == x1 && o.img.y1 == y1 && o.img.x0 == x0 && o.img.y0 == y0);
        assert!(j.m_cp.tdx == dx && j.m_cp.tdy == dy && j.m_cp.tx0 == tx && j.m_cp.ty0 == ty && o.img.numcomps == 2);
        unsafe { assert!(ASKED[0] == (x1 - tx, dx) && ASKED[1] == (y1 - ty, dy) && UPDATED); }
        assert!(j.m_cp.tw == tw && j.m_cp.th == th);
        i = 0;
        while i < 2 {
            let s = 36 + 3 * i;
            let k = &ic[i];
            assert!(k.prec == (b[s] & 0x7f) as u32 + 1 && k.sgnd == (b[s] >> 7) as u32 && k.dx == b[s + 1] as u32 && k.dy == b[s + 2] as u32 && k.factor == reduce);
            assert!(o.dtccp[i].m_dc_level_shift == if k.sgnd == 0 { 1 << (k.prec - 1) } else { 0 });
            i += 1;
        }
        unsafe {
            let d = &j.m_specific_param.m_decoder;
            assert!(d.m_state == J2KState::MH && d.m_start_tile_x == 0 && d.m_start_tile_y == 0 && d.m_end_tile_x == tw && d.m_end_tile_y == th);
        }
        assert!(!o.tcp.tccps.is_null());
    }
    kani::cover!(ok || n != 42 || tw != 1 || th != 1);
    kani::cover!(!ok);
}
//@ siz_read: bounded(two components; one tile) | fns=opj_j2k_read_siz | what=a SIZ segment of any bytes sets image, tile grid and components to what Tables A.9 to A.11 say, or is rejected: an empty image, an empty first tile, no sampling factor, more than 31 bits, more than 65535 tiles, a size that does not fit the components or the JP2 header
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_calloc, pool)]
#[kani::stub(crate::math::opj_uint_ceildiv, tiles)]
#[kani::stub(opj_image_comp_header_update, updated)]
fn siz_read() {
    read_siz(42, 1, 1);
}

//@ siz_refused: bounded(segment lengths 0, 35, 36, 37 and 39; grids of 0, 65536 and 256 x 256 tiles) | fns=opj_j2k_read_siz | what=a SIZ segment of any bytes sets image, tile grid and components to what Tables A.9 to A.11 say, or is rejected: an empty image, an empty first tile, no sampling factor, more than 31 bits, more than 65535 tiles, a size that does not fit the components or the JP2 header
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_calloc, pool)]
#[kani::stub(crate::math::opj_uint_ceildiv, tiles)]
#[kani::stub(opj_image_comp_header_update, updated)]
fn siz_refused() {
    read_siz(0, 1, 1);
    read_siz(35, 1, 1);
    read_siz(37, 1, 1);
    read_siz(42, 0, 1);
    read_siz(42, 65536, 1);
    read_siz(42, 256, 256);
}

// ---- tile-parts ----------------------------------------------------------------------------------
/// A tile-part's start, Table A.5 to A.7, in a grid of `w` x `h` tiles whose tile `tile` is named.
fn read_sot(w: u32, h: u32, tile: u16, only: i32) {
    own!(o);
    decoder(&mut o, NC as u32, false);
    let mut tcps: [opj_tcp_t; 2] = zi();
    o.j.m_cp.tcps = tcps.as_mut_ptr();
    o.j.m_cp.tw = w;
    o.j.m_cp.th = h;
    let named = (tile as u32) < w * h;
    let mut d: opj_j2k_dec_t = zi();
    let (x0, y0, x1, y1): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    d.m_start_tile_x = x0; d.m_start_tile_y = y0; d.m_end_tile_x = x1; d.m_end_tile_y = y1;
    d.m_tile_ind_to_dec = only;
    let fix: bool = kani::any();
    d.m_nb_tile_parts_correction = fix;
    d.m_state = J2KState::TPHSOT;
    o.j.m_specific_param = C2RustUnnamed_2 { m_decoder: d };
    let (last, parts): (i32, u32) = (kani::any(), kani::any());
    kani::assume(last >= -1 && last < 256 && parts <= 256);
    if named { tcps[tile as usize].m_current_tile_part_number = last; tcps[tile as usize].m_nb_tile_parts = parts; }
    let mut b: [u8; 8] = kani::any();
    b[0] = (tile >> 8) as u8; b[1] = tile as u8;
    let n: u32 = kani::any();
    let r = opj_j2k_read_sot(o.j, b.as_mut_ptr(), n, &mut ev()) != 0;
    let (len, part, of) = (le32(&b, 2), b[6] as u32, if b[7] == 0 { 0 } else { b[7] as u32 + fix as u32 });
    let mut ok = n == 8 && named;
    if only < 0 || only == tile as i32 { ok &= part as i32 == last + 1; } // the tile's parts come in order
    ok &= len == 0 || len == 12 || len >= 14;
    ok &= (parts == 0 || part < parts) && (of == 0 || part < of);
    assert!(r == ok);
    if ok {
        let t = &tcps[tile as usize];
        let all = if of != 0 { of } else { parts };
        assert!(o.j.m_current_tile_number == tile as u32 && t.m_current_tile_part_number == part as i32 && t.m_nb_tile_parts == all);
        let d = unsafe { &o.j.m_specific_param.m_decoder };
        assert!(d.m_state == J2KState::TPH && d.m_can_decode == (all == part + 1));
        assert!((d.m_last_tile_part != 0) == (len == 0) && d.m_sot_length == if len == 0 { 0 } else { len - 12 });
        let (x, y) = (tile as u32 % w, tile as u32 / w);
        assert!(d.m_skip_data == if only >= 0 { only != tile as i32 } else { x < x0 || x >= x1 || y < y0 || y >= y1 });
    }
    kani::cover!(ok == named);
    kani::cover!(!ok && n == 8);
}
//@ sot_all: bounded(grids of two tiles) | fns=opj_j2k_read_sot,opj_j2k_get_sot_values | what=an SOT segment of any bytes names its tile, its part and their lengths and number as Tables A.5 to A.7 say, parts come in order, and it is rejected otherwise; a tile outside the region or other than the one asked for is skipped
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn sot_all() {
    read_sot(2, 1, 1, -1);
}

//@ sot_down: bounded(grids of two tiles) | fns=opj_j2k_read_sot,opj_j2k_get_sot_values | what=an SOT segment of any bytes names its tile, its part and their lengths and number as Tables A.5 to A.7 say, parts come in order, and it is rejected otherwise; a tile outside the region or other than the one asked for is skipped
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn sot_down() {
    read_sot(1, 2, 1, -1);
    read_sot(1, 1, 1, -1);
}

//@ sot_one: bounded(grids of two tiles) | fns=opj_j2k_read_sot,opj_j2k_get_sot_values | what=an SOT segment of any bytes names its tile, its part and their lengths and number as Tables A.5 to A.7 say, parts come in order, and it is rejected otherwise; a tile outside the region or other than the one asked for is skipped
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn sot_one() {
    read_sot(2, 1, 1, 1);
}

//@ sot_other: bounded(grids of two tiles) | fns=opj_j2k_read_sot,opj_j2k_get_sot_values | what=an SOT segment of any bytes names its tile, its part and their lengths and number as Tables A.5 to A.7 say, parts come in order, and it is rejected otherwise; a tile outside the region or other than the one asked for is skipped
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_read_bytes, get)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
fn sot_other() {
    read_sot(2, 1, 1, 0);
}

static mut PARTS: [(u32, u32); 6] = [(0, 0); 6]; // parts written so far: data size, number within its progression
static mut NPART: usize = 0;
static mut START: *mut u8 = core::ptr::null_mut();
static mut TOTAL: u32 = 0;
/// A tile-part's data: some bytes, as many as there is room for at most.
fn data(j: &mut opj_j2k, _: *mut opj_tcd_t, p: *mut u8, n: *mut u32, room: u32, _: &Stream, _: &mut opj_event_mgr) -> i32 {
    unsafe {
        // what is left of the buffer is what the parts before did not use
        assert!(p.offset_from(START) as u32 + room == TOTAL);
        let size = [2, 5, 3, 0, 4, 1][NPART];
        assert!(size <= room);
        PARTS[NPART] = (size, j.m_specific_param.m_encoder.m_current_poc_tile_part_number);
        NPART += 1;
        *n = size;
    }
    1
}
static mut TPS: [u32; 2] = [0; 2];
fn tps(_: *mut opj_cp_t, pino: u32, tile: u32) -> u32 { unsafe { assert!(tile == 0); TPS[pino as usize] } }
fn parts(a: u32, b: u32, wide: bool) {
    own!(o);
    setup(&mut o, NC as u32);
    let mut out = [0u8; 64];
    let mut tlm = [0xffu8; 40];
    let mut e: opj_j2k_enc_t = zi();
    e.m_TLM = 1;
    e.m_Ttlmi_is_byte = !wide as i32;
    e.m_tlm_sot_offsets_buffer = tlm.as_mut_ptr();
    e.m_tlm_sot_offsets_current = tlm.as_mut_ptr();
    o.j.m_specific_param = C2RustUnnamed_2 { m_encoder: e };
    let mut tcd: M<opj_tcd_t> = zi();
    o.j.m_tcd = &mut *tcd;
    o.tcp.numpocs = (b > 0) as u32;
    o.tcp.m_nb_tile_parts = a + b;
    let n = (a + b) as usize;
    let (mut w0, mut w1) = (0u32, 0u32);
    unsafe {
        TPS = [a, b]; NPART = 0; START = out.as_mut_ptr(); TOTAL = 64;
        assert!(opj_j2k_write_first_tile_part(o.j, START, &mut w0, 64, &mut st(), &mut ev()) != 0);
        assert!(NPART == 1);
        assert!(opj_j2k_write_all_tile_parts(o.j, START.add(w0 as usize), &mut w1, 64 - w0, &mut st(), &mut ev()) != 0);
        assert!(NPART == n);
        let mut at = 0;
        let mut i = 0;
        let step = if wide { 6 } else { 5 };
        while i < n {
            let len = 12 + PARTS[i].0;
            assert!(le16(&out, at) == 0xff90 && le16(&out, at + 2) == 10 && le16(&out, at + 4) == 0);
            assert!(le32(&out, at + 6) == len && out[at + 10] as usize == i && out[at + 11] as usize == n);
            assert!(PARTS[i].1 as usize == if i < a as usize { i } else { i - a as usize });
            // Table A.34: the tile's number and the part's length
            if wide { assert!(le16(&tlm, 6 * i) == 0); } else { assert!(tlm[5 * i] == 0); }
            assert!(le32(&tlm, step * (i + 1) - 4) == len);
            at += len as usize;
            i += 1;
        }
        assert!(at as u32 == w0 + w1);
    }
}
//@ tile_parts: bounded(up to 4 tile-parts over one or two progressions, data of 0 to 5 bytes) | fns=opj_j2k_write_first_tile_part,opj_j2k_write_all_tile_parts,opj_j2k_write_sot,opj_j2k_update_tlm | what=a tile's parts are written one after another, each started by an SOT segment with its number, the number of parts and its own exact length, which the TLM entry repeats
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_j2k_write_sod, data)]
#[kani::stub(opj_j2k_get_num_tp, tps)]
fn tile_parts() {
    parts(1, 0, false);
    parts(3, 0, false);
    parts(2, 2, true);
    kani::cover!(true);
}

fn any_tell(_: *mut opj_stream_private_t) -> i64 { unsafe { START as i64 } }
static mut SEEK: [i64; 2] = [0; 2];
static mut NSEEK: usize = 0;
static mut DONE: usize = 0;
fn seek_out(_: *mut opj_stream_private_t, p: i64, _: &mut opj_event_mgr) -> i32 {
    unsafe { SEEK[NSEEK] = p; NSEEK += 1; if NSEEK == 2 { assert!(NOUT == DONE); } }
    1
}
fn tlm_of(n: u32) {
    own!(o);
    encoder(&mut o, NC as u32);
    let start: i64 = kani::any();
    kani::assume(start >= 0 && start < 1 << 40);
    let mut buf: [u8; 16] = kani::any();
    unsafe {
        START = start as *mut u8;
        o.j.m_specific_param.m_encoder.m_total_tile_parts = n;
        assert!(opj_j2k_write_tlm(o.j, &mut st(), &mut ev()) != 0);
        // Table A.33: one byte tile numbers and four byte lengths
        assert!(NOUT == 6 + 5 * n as usize && be(0, 2) == 0xff55 && be(2, 2) as usize == NOUT - 2 && be(4, 1) == 0 && be(5, 1) == 0x50);
        let e = &mut o.j.m_specific_param.m_encoder;
        assert!(e.m_tlm_start == start && e.m_Ttlmi_is_byte == 1);
        e.m_tlm_sot_offsets_buffer = buf.as_mut_ptr();
        let now: i64 = kani::any();
        START = now as *mut u8;
        NSEEK = 0; NOUT = 0; DONE = 5 * n as usize;
        assert!(opj_j2k_write_updated_tlm(o.j, &mut st(), &mut ev()) != 0);
        // the entries replace the place held for them, and writing goes on where it was
        assert!(NSEEK == 2 && SEEK[0] == start + 6 && SEEK[1] == now && NOUT == DONE);
        let mut i = 0;
        while i < DONE { assert!(OUT[i] == buf[i]); i += 1; }
    }
}
//@ tlm: bounded(1 and 3 tile-parts) | fns=opj_j2k_write_tlm,opj_j2k_write_updated_tlm | what=the TLM segment is written with room for one entry per tile-part and its entries are filled in at that place once the lengths are known
#[kani::proof]
#[kani::unwind(24)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_stream_tell, any_tell)]
#[kani::stub(opj_stream_seek, seek_out)]
fn tlm() {
    tlm_of(1);
    tlm_of(3);
    kani::cover!(true);
}

fn coded(mut v: u32) -> usize { let mut n = 1; while v > 127 { v >>= 7; n += 1; } n }
/// Two packet lengths of `a` and `b` bytes when coded.
fn plt(a: usize, b: usize) {
    own!(o);
    setup(&mut o, NC as u32);
    let mut sizes: [u32; 2] = kani::any();
    kani::assume(coded(sizes[0]) == a && coded(sizes[1]) == b);
    let mut info = opj_tcd_marker_info_t { need_PLT: 1, packet_count: 2, p_packet_size: sizes.as_mut_ptr() };
    let mut out = [0u8; 16];
    let mut n = 0;
    assert!(opj_j2k_write_plt_in_memory(o.j, &mut info, out.as_mut_ptr(), &mut n, &mut ev()) != 0);
    assert!(n as usize == 5 + a + b && le16(&out, 0) == 0xff58 && le16(&out, 2) == n - 2 && out[4] == 0);
    // Table A.36: seven bits a byte, most significant first, all but the last byte marked
    let (mut at, mut k) = (5, 0);
    while k < 2 {
        let len = if k == 0 { a } else { b };
        let (mut v, mut i) = (0u32, 0);
        while i < len { assert!((out[at + i] & 0x80 != 0) == (i + 1 < len)); v = v << 7 | (out[at + i] & 0x7f) as u32; i += 1; }
        assert!(v == sizes[k]);
        at += len;
        k += 1;
    }
    // and what is written is read without complaint
    assert!(opj_j2k_read_plt(o.j, unsafe { out.as_mut_ptr().add(4) }, n - 4, &mut ev()) != 0);
}
//@ plt_1: bounded(two packets) | fns=opj_j2k_write_plt_in_memory,opj_j2k_read_plt | what=the packet lengths of a tile-part are written as Table A.36 says, with the exact length of the segment, for every length of 1 or 2 coded bytes
#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_read_bytes, get)]
fn plt_1() {
    plt(1, 2);
    kani::cover!(true);
}

//@ plt_5: bounded(two packets) | fns=opj_j2k_write_plt_in_memory,opj_j2k_read_plt | what=the same for every length of 3 to 5 coded bytes
#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(opj_stream_write_data, write_out)]
#[kani::stub(opj_write_bytes, put)]
#[kani::stub(crate::event::opj_event_mgr::msg_write, no_msg)]
#[kani::stub(crate::event::opj_event_mgr::is_enabled, off)]
#[kani::stub(opj_read_bytes, get)]
fn plt_5() {
    plt(3, 5);
    plt(4, 1);
    kani::cover!(true);
}

