// Contracts of code-block coefficient bit modelling (ISO/IEC 15444-1 Annex D).
use crate::mqc::*;

// ------------------------------------------------------------ Table D.1 - D.4
fn count(f: u32, bits: &[u32]) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < bits.len() { n += (f >> bits[i]) & 1; i += 1; }
    n
}
/// Neighbourhood bits: 0 NW, 1 N, 2 NE, 3 W, 4 self, 5 E, 6 SW, 7 S, 8 SE.
fn iso_zc(f: u32, orient: usize) -> u8 {
    let (mut h, mut v, d) = (count(f, &[3, 5]), count(f, &[1, 7]), count(f, &[0, 2, 6, 8]));
    if orient == 1 { core::mem::swap(&mut h, &mut v); }
    if orient < 3 {
        if h == 2 { 8 }
        else if h == 1 { if v >= 1 { 7 } else if d >= 1 { 6 } else { 5 } }
        else if v == 2 { 4 }
        else if v == 1 { 3 }
        else if d >= 2 { 2 } else { d as u8 }
    } else {
        let hv = h + v;
        if d >= 3 { 8 }
        else if d == 2 { if hv >= 1 { 7 } else { 6 } }
        else if d == 1 { if hv >= 2 { 5 } else if hv == 1 { 4 } else { 3 } }
        else if hv >= 2 { 2 } else { hv as u8 }
    }
}
/// Sign contribution of one neighbour.
fn contrib(sig: bool, neg: bool) -> i32 { if !sig { 0 } else if neg { -1 } else { 1 } }
fn clamp1(x: i32) -> i32 { if x > 1 { 1 } else if x < -1 { -1 } else { x } }
/// Table D.3: context label and sign flip bit.
fn iso_sc(h: i32, v: i32) -> (u8, u32) {
    match (h, v) {
        (1, 1) => (13, 0), (1, 0) => (12, 0), (1, -1) => (11, 0),
        (0, 1) => (10, 0), (0, 0) => (9, 0), (0, -1) => (10, 1),
        (-1, 1) => (11, 1), (-1, 0) => (12, 1), _ => (13, 1),
    }
}

//@ zc_lut: complete | fns=lut_ctxno_zc,opj_t1_getctxno_zc | what=zero-coding context of every neighbourhood and sub-band orientation equals Table D.1
#[kani::proof]
#[kani::unwind(6)]
fn zc_lut() {
    let f: u32 = kani::any();
    let orient: usize = kani::any();
    kani::assume(orient < 4);
    kani::cover!(orient == 3 && f & 0x1EF == 0x1EF);
    let mut q = opj_mqc_t::default();
    q.lut_ctxno_zc_orient = &lut_ctxno_zc[orient];
    assert!(opj_t1_getctxno_zc(&mut q, f) == iso_zc(f, orient));
}

// Flag word of column C, stripe S: bit 3*(row-(4S-1)) + (col-(C-1)) is the significance of
// cell (col,row) for the 6x3 neighbourhood, the sign bits of rows 4S-1 .. 4S+4 of the own
// column are at SGN, refinement at MUB, visited at PIB.
const SGN: [u32; 6] = [18, 19, 22, 25, 28, 31];
const MUB: [u32; 4] = [20, 23, 26, 29];
const PIB: [u32; 4] = [21, 24, 27, 30];

//@ sc_context: complete | fns=opj_t1_getctxtno_sc_or_spb_index,opj_t1_getctxno_sc,opj_t1_getspb,lut_ctxno_sc,lut_spb | what=sign context and sign flip for every neighbourhood and row of a stripe equal Tables D.2 and D.3
#[kani::proof]
fn sc_context() {
    let (f, pf, nf): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let ci: u32 = kani::any();
    kani::assume(ci < 4);
    kani::cover!(ci == 0);
    kani::cover!(ci == 3 && f == 0xFFFF_FFFF);
    let r = ci as usize;
    let bit = |w: u32, b: u32| (w >> b) & 1 == 1;
    let west = contrib(bit(f, 3 * ci + 3), bit(pf, SGN[r + 1]));
    let east = contrib(bit(f, 3 * ci + 5), bit(nf, SGN[r + 1]));
    let north = contrib(bit(f, 3 * ci + 1), bit(f, SGN[r]));
    let south = contrib(bit(f, 3 * ci + 7), bit(f, SGN[r + 2]));
    let (ctx, flip) = iso_sc(clamp1(west + east), clamp1(north + south));
    let lu = opj_t1_getctxtno_sc_or_spb_index(f, pf, nf, ci);
    assert!(lu < 256);
    assert!(opj_t1_getctxno_sc(lu) == ctx);
    assert!(opj_t1_getspb(lu) as u32 == flip);
}

//@ mag_context: complete | fns=opj_t1_getctxno_mag | what=magnitude refinement context equals Table D.4
#[kani::proof]
fn mag_context() {
    let f: u32 = kani::any();
    kani::cover!(f & (1 << 20) == 0 && f & 0x1EF == 0);
    kani::cover!(f & (1 << 20) == 0 && f & 0x1EF != 0);
    kani::cover!(f & (1 << 20) != 0);
    let want = if f & (1 << 20) != 0 { 16 } else if f & 0x1EF != 0 { 15 } else { 14 };
    assert!(opj_t1_getctxno_mag(f) == want);
}

const ST: usize = 5; // words per stripe row in the window

/// The mask a newly significant cell (column 2, row 4+ci of a 3-stripe window) contributes to
/// the flag word at (column c, stripe s).
fn update_mask(c: usize, s: usize, ci: usize, neg: u32, vsc: bool) -> u32 {
    let row = 4 + ci as i32;
    let top = 4 * s as i32 - 1;
    let (dr, dc) = (row - top, 2 - (c as i32 - 1));
    if dr < 0 || dr > 5 || dc < 0 || dc > 2 { return 0; }
    if s == 0 && vsc { return 0; }
    let mut m = 1u32 << (3 * dr + dc);
    if dc == 1 { m |= neg << SGN[dr as usize]; }
    m
}

//@ update_flags: complete | fns=opj_t1_update_flags,opj_t1_update_flags_macro | what=a newly significant coefficient becomes visible in exactly the words of its 8 neighbours and its own, sign included; with vertically causal contexts never in the stripe above; nothing else changes
#[kani::proof]
#[kani::unwind(17)]
fn update_flags() {
    let w0: [u32; 3 * ST] = kani::any();
    let mut w = w0;
    let ci: u32 = kani::any();
    let s: u32 = kani::any();
    let vsc: u32 = kani::any();
    kani::assume(ci < 4 && s <= 1);
    kani::cover!(ci == 0 && vsc == 0);
    kani::cover!(ci == 3 && s == 1);
    kani::cover!(vsc == 8 && ci == 0);
    let p = FlagsPtr { flags: unsafe { w.as_mut_ptr().add(ST + 2) } };
    opj_t1_update_flags(p, ci, s, ST as u32, vsc);
    let mut st = 0;
    while st < 3 {
        let mut c = 0;
        while c < ST {
            let m = if c >= 1 && c <= 3 {
                // vertically causal: only the upper stripe is blind to row 0
                update_mask(c, st, ci as usize, s, vsc != 0 && ci == 0)
            } else { 0 };
            assert!(w[st * ST + c] == w0[st * ST + c] | m);
            c += 1;
        }
        st += 1;
    }
}

// ------------------------------------------------------------ lock step of encoder and decoder
// The arithmetic coder is replaced by its contract seen from here: the decoder obtains, for the
// same sequence of contexts, the sequence of decisions the encoder produced (C02).
const Q: usize = 12;
static mut LOG: [(u8, u32); Q] = [(0, 0); Q];
static mut NLOG: usize = 0;
static mut RD: usize = 0;
static mut SAME: bool = true;

fn fake_encode(mqc: &mut opj_mqc_t, d: u32) {
    unsafe { assert!(d <= 1); LOG[NLOG] = (mqc.curctx, d); NLOG += 1; }
}
fn fake_decode(d: &mut u32, mqc: &mut opj_mqc_t) {
    unsafe {
        if RD < NLOG && LOG[RD].0 == mqc.curctx { *d = LOG[RD].1; RD += 1; }
        else { SAME = false; *d = 0; }
    }
}
fn fake_bypass(mqc: &mut opj_mqc_t, d: u32) {
    unsafe { assert!(d <= 1); LOG[NLOG] = (255, d); NLOG += 1; }
}
fn fake_raw(mqc: &mut opj_mqc_t) -> u32 {
    unsafe {
        if RD < NLOG && LOG[RD].0 == 255 { RD += 1; LOG[RD - 1].1 } else { SAME = false; 0 }
    }
}

/// Decoder fixed-point value of magnitude m known down to bit-plane p.
fn recon(m: u32, p: u32) -> i32 { (((m >> p) << (p + 1)) | (1 << p)) as i32 }
fn signed(v: i32, s: u32) -> i32 { if s == 1 { -v } else { v } }

struct Win { e: [u32; 3 * ST], d: [u32; 3 * ST] }
fn win() -> Win { let e: [u32; 3 * ST] = kani::any(); Win { e, d: e } }
fn fp(a: &mut [u32; 3 * ST]) -> FlagsPtr { FlagsPtr { flags: unsafe { a.as_mut_ptr().add(ST + 2) } } }

/// Encoder coefficient: sign-magnitude with 6 fractional bits.
fn enc_coef() -> (i32, u32, u32) {
    let x: i32 = kani::any();
    let m = (x as u32 & 0x7FFF_FFFF) >> 6;
    (x, m, x as u32 >> 31)
}

//@ sigpass_step: complete | fns=opj_t1_enc_sigpass_step_macro,opj_t1_dec_sigpass_step_mqc_macro,opj_t1_dec_sigpass_step_mqc,opj_t1_getctxno_zc,opj_t1_update_flags | what=one significance-propagation step: encoder and decoder use the same contexts in the same order, end in the same flag state, decoder value gets the encoder's sign and bit-plane; skipped coefficients untouched
#[kani::proof]
#[kani::unwind(17)]
#[kani::stub(crate::mqc::opj_mqc_encode_macro, fake_encode)]
#[kani::stub(crate::mqc::opj_mqc_decode_macro, fake_decode)]
fn sigpass_step() {
    let mut w = win();
    let w0 = w.e;
    let (mut x, m, s) = enc_coef();
    let x0 = x;
    let p: u32 = kani::any();
    kani::assume(p <= 24);
    let ci: u32 = kani::any();
    kani::assume(ci < 4);
    let vsc: u32 = kani::any();
    let d0: i32 = kani::any();
    // decoder data: column with row stride 1
    let mut dd = [d0; 4];
    let orient: usize = kani::any();
    kani::assume(orient < 4);
    let mut q = opj_mqc_t::default();
    q.lut_ctxno_zc_orient = &lut_ctxno_zc[orient];
    let own = w0[ST + 2];
    let coded = own & ((1 << (4 + 3 * ci)) | (1 << PIB[ci as usize])) == 0 && own & (0x1EF << (3 * ci)) != 0;
    kani::cover!(coded && (m >> p) & 1 == 1 && s == 1);
    kani::cover!(!coded);
    let mut nm = 0;
    unsafe {
        opj_t1_enc_sigpass_step_macro(&mut q, (ST - 2) as u32, fp(&mut w.e), DataPtr { data: &mut x }, p as i32,
            1 << (p + 6), &mut nm, 0, ci, vsc);
    }
    assert!(x == x0);
    let oph = (1i32 << (p + 1)) | (1 << p);
    if kani::any() {
        opj_t1_dec_sigpass_step_mqc_macro(fp(&mut w.d), ST as u32, DataPtr { data: dd.as_mut_ptr() }, 1, ci, &mut q, 0, oph, vsc);
    } else {
        let mut t1 = opj_t1::default();
        t1.mqc.lut_ctxno_zc_orient = &lut_ctxno_zc[orient];
        let dp = unsafe { dd.as_mut_ptr().add(ci as usize) };
        opj_t1_dec_sigpass_step_mqc(&mut t1, fp(&mut w.d), DataPtr { data: dp }, oph, ci, ST as u32, vsc);
        core::mem::forget(t1);
    }
    unsafe {
        assert!(SAME && RD == NLOG);
        if coded { assert!(NLOG >= 1 && LOG[0] == (iso_zc(own >> (3 * ci), orient), (m >> p) & 1)); } else { assert!(NLOG == 0); }
    }
    let newly = coded && (m >> p) & 1 == 1;
    let k: usize = kani::any();
    kani::assume(k < 4);
    if k == ci as usize && newly { assert!(dd[k] == signed(oph, s)); } else { assert!(dd[k] == d0); }
    let j: usize = kani::any();
    kani::assume(j < 3 * ST);
    assert!(w.e[j] == w.d[j]);
    let (c, st) = (j % ST, j / ST);
    let mut want = w0[j];
    if newly && c >= 1 && c <= 3 { want |= update_mask(c, st, ci as usize, s, vsc != 0 && ci == 0); }
    if coded && j == ST + 2 { want |= 1 << PIB[ci as usize]; }
    assert!(w.e[j] == want);
}

//@ sigpass_step_raw: complete | fns=opj_t1_enc_sigpass_step_macro,opj_t1_dec_sigpass_step_raw | what=the same for the bypass mode: magnitude bit then plain sign bit
#[kani::proof]
#[kani::unwind(17)]
#[kani::stub(crate::mqc::opj_mqc_bypass_enc_macro, fake_bypass)]
#[kani::stub(crate::mqc::opj_mqc_raw_decode, fake_raw)]
fn sigpass_step_raw() {
    let mut w = win();
    let w0 = w.e;
    let (mut x, m, s) = enc_coef();
    let p: u32 = kani::any();
    kani::assume(p <= 24);
    let ci: u32 = kani::any();
    kani::assume(ci < 4);
    let vsc: u32 = kani::any();
    let d0: i32 = kani::any();
    let mut dd = d0;
    let mut q = opj_mqc_t::default();
    let own = w0[ST + 2];
    let coded = own & ((1 << (4 + 3 * ci)) | (1 << PIB[ci as usize])) == 0 && own & (0x1EF << (3 * ci)) != 0;
    kani::cover!(coded && (m >> p) & 1 == 1);
    let mut nm = 0;
    unsafe {
        opj_t1_enc_sigpass_step_macro(&mut q, (ST - 2) as u32, fp(&mut w.e), DataPtr { data: &mut x }, p as i32,
            1 << (p + 6), &mut nm, 1, ci, vsc);
    }
    let oph = (1i32 << (p + 1)) | (1 << p);
    let mut t1 = opj_t1::default();
    t1.w = (ST - 2) as u32;
    opj_t1_dec_sigpass_step_raw(&mut t1, fp(&mut w.d), DataPtr { data: &mut dd }, oph, vsc, ci);
    core::mem::forget(t1);
    unsafe { assert!(SAME && RD == NLOG); }
    let newly = coded && (m >> p) & 1 == 1;
    if newly { assert!(dd == signed(oph, s)); } else { assert!(dd == d0); }
    let j: usize = kani::any();
    kani::assume(j < 3 * ST);
    assert!(w.e[j] == w.d[j]);
    let (c, st) = (j % ST, j / ST);
    let mut want = w0[j];
    if newly && c >= 1 && c <= 3 { want |= update_mask(c, st, ci as usize, s, vsc != 0 && ci == 0); }
    if coded && j == ST + 2 { want |= 1 << PIB[ci as usize]; }
    assert!(w.e[j] == want);
}

//@ refpass_step: complete | fns=opj_t1_enc_refpass_step_macro,opj_t1_dec_refpass_step_mqc_macro,opj_t1_dec_refpass_step_mqc,opj_t1_dec_refpass_step_raw | what=one magnitude-refinement step (arithmetic and bypass): same context, same flags, decoder value refined from bit-plane p+1 to p of the encoder's coefficient; skipped coefficients untouched
#[kani::proof]
#[kani::stub(crate::mqc::opj_mqc_encode_macro, fake_encode)]
#[kani::stub(crate::mqc::opj_mqc_decode_macro, fake_decode)]
#[kani::stub(crate::mqc::opj_mqc_bypass_enc_macro, fake_bypass)]
#[kani::stub(crate::mqc::opj_mqc_raw_decode, fake_raw)]
fn refpass_step() {
    let f0: u32 = kani::any();
    let (mut fe, mut fd) = (f0, f0);
    let (mut x, m, s) = enc_coef();
    let p: u32 = kani::any();
    kani::assume(p <= 24);
    let ci: u32 = kani::any();
    kani::assume(ci < 4);
    let coded = f0 & (1 << (4 + 3 * ci)) != 0 && f0 & (1 << PIB[ci as usize]) == 0;
    // a significant coefficient is known down to plane p+1
    let d0: i32 = if coded { signed(recon(m, p + 1), s) } else { kani::any() };
    kani::assume(!coded || m >> (p + 1) != 0);
    let mut dd = [d0; 4];
    let raw: bool = kani::any();
    kani::cover!(coded && raw);
    kani::cover!(coded && !raw && p == 0);
    kani::cover!(!coded);
    let mut q = opj_mqc_t::default();
    let mut nm = 0;
    unsafe {
        opj_t1_enc_refpass_step_macro(&mut q, FlagsPtr { flags: &mut fe }, DataPtr { data: &mut x }, p as i32, 1 << (p + 6), &mut nm,
            raw as u8, ci);
    }
    let half = 1i32 << p;
    let dp = unsafe { dd.as_mut_ptr().add(ci as usize) };
    let mut t1 = opj_t1::default();
    if raw {
        opj_t1_dec_refpass_step_raw(&mut t1, FlagsPtr { flags: &mut fd }, DataPtr { data: dp }, half, ci);
    } else if kani::any() {
        let mut v = 0;
        opj_t1_dec_refpass_step_mqc_macro(FlagsPtr { flags: &mut fd }, DataPtr { data: dd.as_mut_ptr() }, 1, ci, &mut q, &mut v, half);
    } else {
        opj_t1_dec_refpass_step_mqc(&mut t1, FlagsPtr { flags: &mut fd }, DataPtr { data: dp }, half, ci);
    }
    core::mem::forget(t1);
    unsafe {
        assert!(SAME && RD == NLOG && NLOG == coded as usize);
        if coded { assert!(LOG[0].1 == (m >> p) & 1); }
        if coded && !raw {
            let g = f0 >> (3 * ci);
            assert!(LOG[0].0 == if g & (1 << 20) != 0 { 16 } else if g & 0x1EF != 0 { 15 } else { 14 });
        }
    }
    assert!(fe == fd);
    assert!(fe == if coded { f0 | (1 << MUB[ci as usize]) } else { f0 });
    let k: usize = kani::any();
    kani::assume(k < 4);
    if k == ci as usize && coded { assert!(dd[k] == signed(recon(m, p), s)); } else { assert!(dd[k] == d0); }
}

/// A stripe column (or its last rows) in the clean-up pass, through the pass functions of a
/// one column wide code-block.
fn clnpass_column(h: u32) {
    let stripes = ((h + 3) / 4 + 2) as usize;
    let n = 3 * stripes;
    let mut te = opj_t1::default();
    let mut td = opj_t1::default();
    te.w = 1; te.h = h; td.w = 1; td.h = h;
    te.flags.resize(n); td.flags.resize(n);
    te.data.resize(h as usize); td.data.resize(h as usize);
    let p: u32 = kani::any();
    kani::assume(p <= 24);
    let orient: usize = kani::any();
    kani::assume(orient < 4);
    te.mqc.lut_ctxno_zc_orient = &lut_ctxno_zc[orient];
    td.mqc.lut_ctxno_zc_orient = &lut_ctxno_zc[orient];
    let sty: u32 = if kani::any() { J2K_CCP_CBLKSTY_VSC } else { 0 };
    let mut i = 0;
    while i < n {
        let f: u32 = kani::any();
        te.flags.flags[i] = f;
        td.flags.flags[i] = f;
        i += 1;
    }
    let own = te.flags.flags[4];
    // rows below the code-block never become significant (no coefficient there)
    let mut r = h as usize % 4;
    let mut beyond = 0u32; // visited marks of rows that do not exist: never consulted
    while r > 0 && r < 4 {
        kani::assume(own & (1 << (4 + 3 * r)) == 0);
        beyond |= 1 << PIB[r];
        r += 1;
    }
    let mut k = 0usize;
    let mut ms = [0u32; 4];
    let mut ss = [0u32; 4];
    let mut ds = [0i32; 4];
    let mut todo = [false; 4];
    while k < h as usize {
        let (x, m, s) = enc_coef();
        te.data.data[k] = x;
        td.data.data[k] = kani::any();
        ms[k] = m; ss[k] = s; ds[k] = td.data.data[k];
        todo[k] = own & ((1 << (4 + 3 * k)) | (1 << PIB[k])) == 0;
        k += 1;
    }
    kani::cover!(own == 0 && (ms[0] >> p) & 1 == 1);
    kani::cover!(own != 0 && todo[0] && (ms[0] >> p) & 1 == 1);
    let mut nm = 0;
    opj_t1_enc_clnpass(&mut te, p as i32, &mut nm, sty);
    opj_t1_dec_clnpass(&mut td, p as i32 + 1, sty as i32);
    unsafe { assert!(SAME && RD == NLOG); }
    let mut i = 0;
    while i < n {
        let mask = if i == 4 { !beyond } else { !0 };
        assert!(te.flags.flags[i] & mask == td.flags.flags[i] & mask);
        i += 1;
    }
    let oph = (1i32 << (p + 1)) | (1 << p);
    let mut k = 0usize;
    while k < h as usize {
        if todo[k] && (ms[k] >> p) & 1 == 1 { assert!(td.data.data[k] == signed(oph, ss[k])); }
        else { assert!(td.data.data[k] == ds[k]); }
        // visited marks are cleared for the next bit-plane
        assert!(te.flags.flags[4] & (1 << PIB[k]) == 0);
        k += 1;
    }
    core::mem::forget(te);
    core::mem::forget(td);
}

//@ clnpass_column4: complete | fns=opj_t1_enc_clnpass,opj_t1_enc_clnpass_step_macro,opj_t1_dec_clnpass,opj_t1_dec_clnpass_internal,opj_t1_dec_clnpass_step_macro | what=clean-up of one full stripe column for every flag and coefficient state: run-length mode, contexts, signs, flags and visited marks agree between encoder and decoder
#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(crate::mqc::opj_mqc_encode_macro, fake_encode)]
#[kani::stub(crate::mqc::opj_mqc_decode_macro, fake_decode)]
fn clnpass_column4() { clnpass_column(4); }

//@ clnpass_column3: complete | fns=opj_t1_enc_clnpass,opj_t1_dec_clnpass,opj_t1_dec_clnpass_step | what=the same for a stripe cut to 3 rows (no run-length mode)
#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(crate::mqc::opj_mqc_encode_macro, fake_encode)]
#[kani::stub(crate::mqc::opj_mqc_decode_macro, fake_decode)]
fn clnpass_column3() { clnpass_column(3); }
