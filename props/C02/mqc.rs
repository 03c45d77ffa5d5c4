// Contracts of the MQ arithmetic coder against ISO/IEC 15444-1 Annex C, written from the
// standard's flowcharts and Table C.2 (not from the code).

// Table C.2: Qe, NMPS, NLPS, SWITCH
const ISO: [(u32, u8, u8, u8); 47] = [
    (0x5601, 1, 1, 1), (0x3401, 2, 6, 0), (0x1801, 3, 9, 0), (0x0AC1, 4, 12, 0), (0x0521, 5, 29, 0),
    (0x0221, 38, 33, 0), (0x5601, 7, 6, 1), (0x5401, 8, 14, 0), (0x4801, 9, 14, 0), (0x3801, 10, 14, 0),
    (0x3001, 11, 17, 0), (0x2401, 12, 18, 0), (0x1C01, 13, 20, 0), (0x1601, 29, 21, 0), (0x5601, 15, 14, 1),
    (0x5401, 16, 14, 0), (0x5101, 17, 15, 0), (0x4801, 18, 16, 0), (0x3801, 19, 17, 0), (0x3401, 20, 18, 0),
    (0x3001, 21, 19, 0), (0x2801, 22, 19, 0), (0x2401, 23, 20, 0), (0x2201, 24, 21, 0), (0x1C01, 25, 22, 0),
    (0x1801, 26, 23, 0), (0x1601, 27, 24, 0), (0x1401, 28, 25, 0), (0x1201, 29, 26, 0), (0x1101, 30, 27, 0),
    (0x0AC1, 31, 28, 0), (0x09C1, 32, 29, 0), (0x08A1, 33, 30, 0), (0x0521, 34, 31, 0), (0x0441, 35, 32, 0),
    (0x02A1, 36, 33, 0), (0x0221, 37, 34, 0), (0x0141, 38, 35, 0), (0x0111, 39, 36, 0), (0x0085, 40, 37, 0),
    (0x0049, 41, 38, 0), (0x0025, 42, 39, 0), (0x0015, 43, 40, 0), (0x0009, 44, 41, 0), (0x0005, 45, 42, 0),
    (0x0001, 45, 43, 0), (0x5601, 46, 46, 0),
];

const W: usize = 6;

/// A context's adaptive state: index into Table C.2 and the current MPS.
#[derive(Copy, Clone, PartialEq, Eq)]
struct Cx { i: usize, mps: u32 }

fn same(s: &opj_mqc_state_t, cx: Cx) -> bool {
    let (q, nm, nl, sw) = ISO[cx.i];
    let m = cx.mps as u8;
    let nlm = if sw == 1 { 1 - m } else { m };
    s.qeval == q && s.mps == m && s.nmps == 2 * nm + m && s.nlps == 2 * nl + nlm
}
fn next_mps(cx: Cx) -> Cx { Cx { i: ISO[cx.i].1 as usize, mps: cx.mps } }
fn next_lps(cx: Cx) -> Cx {
    Cx { i: ISO[cx.i].2 as usize, mps: if ISO[cx.i].3 == 1 { 1 - cx.mps } else { cx.mps } }
}
fn any_cx() -> Cx {
    let c = Cx { i: kani::any(), mps: kani::any() };
    kani::assume(c.i < 47 && c.mps <= 1);
    c
}
fn state_of(cx: Cx) -> &'static opj_mqc_state_t { &mqc_states[2 * cx.i + cx.mps as usize] }

//@ mq_table: complete | fns=mqc_states | what=all 94 probability states equal Table C.2 (Qe, next MPS, next LPS, MPS switch)
#[kani::proof]
fn mq_table() {
    assert!(mqc_states.len() == 94);
    let cx = any_cx();
    kani::cover!(cx.i == 46);
    assert!(same(state_of(cx), cx));
}

struct M { mem: [u8; W], bp: usize }

fn any_mqc(m: &mut M) -> opj_mqc_t {
    let mut q = opj_mqc_t::default();
    let p = m.mem.as_mut_ptr();
    q.start = p;
    q.end = unsafe { p.add(W) };
    q.bp = unsafe { p.add(m.bp) };
    q.a = kani::any();
    q.c = kani::any();
    q.ct = kani::any();
    q.end_of_byte_stream_counter = kani::any();
    q
}
fn pos(q: &opj_mqc_t, m: &M) -> isize { unsafe { q.bp.offset_from(m.mem.as_ptr()) } }

// ---------------------------------------------------------------- decoder

#[derive(Copy, Clone)]
struct D { a: u32, c: u32, ct: u32, bp: usize, eos: u32 }

/// C.3.4 BYTEIN (with the end-of-stream counter kept by this implementation).
fn iso_bytein(m: &[u8; W], mut d: D) -> D {
    let b1 = m[d.bp + 1] as u32;
    if m[d.bp] == 0xFF {
        if b1 > 0x8F {
            d.c = d.c.wrapping_add(0xFF00);
            d.ct = 8;
            d.eos = d.eos.wrapping_add(1);
        } else {
            d.bp += 1;
            d.c = d.c.wrapping_add(b1 << 9);
            d.ct = 7;
        }
    } else {
        d.bp += 1;
        d.c = d.c.wrapping_add(b1 << 8);
        d.ct = 8;
    }
    d
}
/// C.3.3 RENORMD
fn iso_renormd(m: &[u8; W], mut d: D) -> D {
    let mut k = 0;
    while k < 16 {
        if k == 0 || d.a < 0x8000 {
            if d.ct == 0 { d = iso_bytein(m, d); }
            d.a = d.a << 1;
            d.c = d.c << 1;
            d.ct -= 1;
        }
        k += 1;
    }
    d
}
/// C.3.2 DECODE
fn iso_decode(m: &[u8; W], mut d: D, cx: Cx) -> (D, Cx, u32) {
    let qe = ISO[cx.i].0;
    d.a -= qe;
    if (d.c >> 16) < qe {
        // LPS_EXCHANGE
        let (bit, n) = if d.a < qe { (cx.mps, next_mps(cx)) } else { (1 - cx.mps, next_lps(cx)) };
        d.a = qe;
        (iso_renormd(m, d), n, bit)
    } else {
        d.c -= qe << 16;
        if d.a & 0x8000 == 0 {
            // MPS_EXCHANGE
            let (bit, n) = if d.a < qe { (1 - cx.mps, next_lps(cx)) } else { (cx.mps, next_mps(cx)) };
            (iso_renormd(m, d), n, bit)
        } else {
            (d, cx, cx.mps)
        }
    }
}

//@ mq_bytein: complete | fns=opj_mqc_bytein,opj_mqc_bytein_macro | what=BYTEIN (C.3.4): bit unstuffing after 0xFF, stops in front of a marker, reads only the current and next byte
#[kani::proof]
fn mq_bytein() {
    let mut m = M { mem: kani::any(), bp: kani::any() };
    kani::assume(m.bp < W - 1);
    let mut q = any_mqc(&mut m);
    let d = D { a: q.a, c: q.c, ct: q.ct, bp: m.bp, eos: q.end_of_byte_stream_counter };
    kani::cover!(m.mem[m.bp] == 0xFF && m.mem[m.bp + 1] > 0x8F);
    kani::cover!(m.mem[m.bp] == 0xFF && m.mem[m.bp + 1] == 0x8F);
    let m0 = m.mem;
    let w = iso_bytein(&m0, d);
    opj_mqc_bytein(&mut q);
    assert!(q.a == w.a && q.c == w.c && q.ct == w.ct && q.end_of_byte_stream_counter == w.eos);
    assert!(pos(&q, &m) == w.bp as isize);
    assert!(m.mem == m0);
}

//@ mq_decode: complete | fns=opj_mqc_decode_macro,opj_mqc_mpsexchange_macro,opj_mqc_lpsexchange_macro,opj_mqc_renormd_macro,opj_mqc_bytein_macro,set_curctx_nmps,set_curctx_nlps | what=DECODE (C.3.2) for every register, context state and input bytes: decision, registers, position and adaptive state equal the standard's; only the current context adapts; interval stays in [0x8000,0xFFFF]
#[kani::proof]
#[kani::unwind(18)]
fn mq_decode() {
    let mut m = M { mem: kani::any(), bp: 0 };
    let mut q = any_mqc(&mut m);
    kani::assume(q.a >= 0x8000 && q.a <= 0xFFFF && q.ct <= 8);
    let cx = any_cx();
    let cur: u8 = kani::any();
    kani::assume((cur as usize) < MQC_NUMCTXS);
    let other = any_cx();
    q.ctxs = [state_of(other); MQC_NUMCTXS];
    q.ctxs[cur as usize] = state_of(cx);
    q.curctx = cur;
    let d = D { a: q.a, c: q.c, ct: q.ct, bp: 0, eos: q.end_of_byte_stream_counter };
    kani::cover!(ISO[cx.i].3 == 1 && q.ct == 0);
    kani::cover!(ISO[cx.i].0 == 1);
    let m0 = m.mem;
    let (w, n, bit) = iso_decode(&m0, d, cx);
    let mut got: u32 = kani::any();
    opj_mqc_decode_macro(&mut got, &mut q);
    assert!(got == bit);
    assert!(q.a == w.a && q.c == w.c && q.ct == w.ct);
    assert!(q.end_of_byte_stream_counter == w.eos);
    assert!(pos(&q, &m) == w.bp as isize);
    assert!(same(q.ctxs[cur as usize], n));
    assert!(q.curctx == cur);
    let k: usize = kani::any();
    kani::assume(k < MQC_NUMCTXS && k != cur as usize);
    assert!(same(q.ctxs[k], other));
    assert!(m.mem == m0);
    // invariant for the next decision
    assert!(q.a >= 0x8000 && q.a <= 0xFFFF && q.ct <= 8);
}

//@ mq_init_dec: complete | fns=opj_mqc_init_dec,opj_mqc_init_dec_common,opq_mqc_finish_dec,backup_extra,restore_extra | what=INITDEC (C.3.5) with the artificial end marker; finishing restores every byte of the code-block buffer
#[kani::proof]
#[kani::unwind(8)]
fn mq_init_dec() {
    let mut m = M { mem: kani::any(), bp: 0 };
    let off: usize = kani::any();
    let len: usize = kani::any();
    kani::assume(off <= W && len <= W && off + len + 2 <= W);
    kani::cover!(len == 0);
    kani::cover!(len == 3);
    let m0 = m.mem;
    let mut q = any_mqc(&mut m);
    let p = unsafe { m.mem.as_mut_ptr().add(off) };
    opj_mqc_init_dec(&mut q, p, len as u32, OPJ_COMMON_CBLK_DATA_EXTRA);
    // terminated data seen by the decoder
    let mut t = m0;
    t[off + len] = 0xFF;
    t[off + len + 1] = 0xFF;
    assert!(m.mem == t);
    let b0 = if len == 0 { 0xFF } else { t[off] as u32 };
    let mut d = iso_bytein(&t, D { a: 0, c: b0 << 16, ct: 0, bp: off, eos: 0 });
    d.c <<= 7;
    d.ct -= 7;
    assert!(q.a == 0x8000 && q.c == d.c && q.ct == d.ct && q.end_of_byte_stream_counter == d.eos);
    assert!(pos(&q, &m) == d.bp as isize && q.curctx == 0);
    assert!(q.start == p && q.end == unsafe { p.add(len) });
    opq_mqc_finish_dec(&mut q);
    assert!(m.mem == m0);
}

//@ mq_raw_dec: complete | fns=opj_mqc_raw_decode | what=raw (bypass) bits most significant first with a stuffed bit skipped after 0xFF and ones after the end marker
#[kani::proof]
fn mq_raw_dec() {
    let mut m = M { mem: kani::any(), bp: kani::any() };
    kani::assume(m.bp < W);
    let mut q = any_mqc(&mut m);
    kani::assume(q.ct <= 8 && q.c <= 0xFF);
    kani::cover!(q.ct == 0 && q.c == 0xFF && m.mem[m.bp] == 0x8F);
    kani::cover!(q.ct == 0 && q.c == 0xFF && m.mem[m.bp] == 0x90);
    let (c0, ct0, bp0) = (q.c, q.ct, m.bp);
    let m0 = m.mem;
    let (mut c, mut ct, mut bp) = (c0, ct0, bp0);
    if ct == 0 {
        let b = m0[bp] as u32;
        if c0 == 0xFF && b > 0x8F { c = 0xFF; ct = 8; }
        else { ct = if c0 == 0xFF { 7 } else { 8 }; c = b; bp += 1; }
    }
    ct -= 1;
    let r = opj_mqc_raw_decode(&mut q);
    assert!(r == (c >> ct) % 2);
    assert!(q.c == c && q.ct == ct && pos(&q, &m) == bp as isize);
    assert!(m.mem == m0);
    assert!(q.ct <= 8 && q.c <= 0xFF);
}

//@ mq_raw_init_dec: complete | fns=opj_mqc_raw_init_dec,opq_mqc_finish_dec | what=raw decoder starts at the segment with the artificial end marker; finishing restores the buffer
#[kani::proof]
#[kani::unwind(8)]
fn mq_raw_init_dec() {
    let mut m = M { mem: kani::any(), bp: 0 };
    let off: usize = kani::any();
    let len: usize = kani::any();
    kani::assume(off <= W && len <= W && off + len + 2 <= W);
    kani::cover!(len == 0);
    let m0 = m.mem;
    let mut q = any_mqc(&mut m);
    let p = unsafe { m.mem.as_mut_ptr().add(off) };
    opj_mqc_raw_init_dec(&mut q, p, len as u32, OPJ_COMMON_CBLK_DATA_EXTRA);
    assert!(q.c == 0 && q.ct == 0 && q.bp == p && q.start == p && q.end == unsafe { p.add(len) });
    let mut t = m0;
    t[off + len] = 0xFF;
    t[off + len + 1] = 0xFF;
    assert!(m.mem == t);
    opq_mqc_finish_dec(&mut q);
    assert!(m.mem == m0);
}

// ---------------------------------------------------------------- encoder

#[derive(Copy, Clone)]
struct E { a: u32, c: u32, ct: u32, bp: usize }

/// Encoder register invariant; `b` is the byte at the current position.
fn einv(a: u32, c: u32, ct: u32, b: u8) -> bool {
    a >= 0x8000 && a <= 0xFFFF && ct >= 1 && ct <= 12
        && (c as u64) + (a as u64) <= 1u64 << (28 - ct)
        && (b != 0xFF || (ct <= 8 && (c as u64) + (a as u64) <= ((1u64 << 19) + (1u64 << 16)) << (8 - ct)))
}
/// C.2.7 BYTEOUT
fn iso_byteout(m: &mut [u8; W], mut e: E) -> E {
    let stuff;
    if m[e.bp] == 0xFF {
        stuff = true;
    } else if e.c < 0x8000000 {
        stuff = false;
    } else {
        m[e.bp] += 1;
        if m[e.bp] == 0xFF { e.c &= 0x7FFFFFF; stuff = true; } else { stuff = false; }
    }
    e.bp += 1;
    if stuff {
        m[e.bp] = (e.c >> 20) as u8;
        e.c &= 0xFFFFF;
        e.ct = 7;
    } else {
        m[e.bp] = (e.c >> 19) as u8;
        e.c &= 0x7FFFF;
        e.ct = 8;
    }
    e
}
/// C.2.6 RENORME
fn iso_renorme(m: &mut [u8; W], mut e: E) -> E {
    let mut k = 0;
    while k < 16 {
        if k == 0 || e.a & 0x8000 == 0 {
            e.a <<= 1;
            e.c <<= 1;
            e.ct -= 1;
            if e.ct == 0 { e = iso_byteout(m, e); }
        }
        k += 1;
    }
    e
}
/// C.2.4 / C.2.5 CODEMPS, CODELPS
fn iso_encode(m: &mut [u8; W], mut e: E, cx: Cx, bit: u32) -> (E, Cx) {
    let qe = ISO[cx.i].0;
    e.a -= qe;
    if bit == cx.mps {
        if e.a & 0x8000 == 0 {
            if e.a < qe { e.a = qe; } else { e.c += qe; }
            (iso_renorme(m, e), next_mps(cx))
        } else {
            e.c += qe;
            (e, cx)
        }
    } else {
        if e.a < qe { e.c += qe; } else { e.a = qe; }
        (iso_renorme(m, e), next_lps(cx))
    }
}

//@ mq_byteout: complete | fns=opj_mqc_byteout | what=BYTEOUT (C.2.7): carry propagation, bit stuffing, one byte further; never a marker code; frame: at most the current and next byte change
#[kani::proof]
#[kani::unwind(10)]
fn mq_byteout() {
    let mut m = M { mem: kani::any(), bp: kani::any() };
    kani::assume(m.bp < W - 1);
    let mut q = any_mqc(&mut m);
    let b = m.mem[m.bp];
    kani::assume((q.c as u64) < 1u64 << 28);
    kani::assume(b != 0xFF || q.c <= 0x8FFFFFF);
    kani::cover!(b == 0xFE && q.c & 0x8000000 != 0);
    kani::cover!(b == 0xFF);
    let mut t = m.mem;
    let w = iso_byteout(&mut t, E { a: q.a, c: q.c, ct: q.ct, bp: m.bp });
    opj_mqc_byteout(&mut q);
    assert!(q.a == w.a && q.c == w.c && q.ct == w.ct && pos(&q, &m) == w.bp as isize);
    assert!(m.mem == t);
    assert!(!(t[w.bp - 1] == 0xFF && t[w.bp] > 0x8F));
}

//@ mq_encode: complete | fns=opj_mqc_encode,opj_mqc_encode_macro,opj_mqc_codemps,opj_mqc_codelps,opj_mqc_renorme_macro,opj_mqc_byteout | what=ENCODE (C.2.2-C.2.7) for every register, context state and pending byte; registers, emitted bytes and adaptive state equal the standard's; invariant kept so no marker code can ever be emitted
#[kani::proof]
#[kani::unwind(18)]
fn mq_encode() {
    let mut m = M { mem: kani::any(), bp: 1 };
    let mut q = any_mqc(&mut m);
    kani::assume(einv(q.a, q.c, q.ct, m.mem[1]));
    let cx = any_cx();
    let cur: u8 = kani::any();
    kani::assume((cur as usize) < MQC_NUMCTXS);
    let other = any_cx();
    q.ctxs = [state_of(other); MQC_NUMCTXS];
    q.ctxs[cur as usize] = state_of(cx);
    q.curctx = cur;
    let bit: u32 = kani::any();
    kani::assume(bit <= 1);
    kani::cover!(q.ct == 1 && m.mem[1] == 0xFE && bit != cx.mps);
    kani::cover!(m.mem[1] == 0xFF);
    let mut t = m.mem;
    let (w, n) = iso_encode(&mut t, E { a: q.a, c: q.c, ct: q.ct, bp: 1 }, cx, bit);
    opj_mqc_encode(&mut q, bit);
    assert!(q.a == w.a && q.c == w.c && q.ct == w.ct && pos(&q, &m) == w.bp as isize);
    assert!(m.mem == t);
    assert!(same(q.ctxs[cur as usize], n) && q.curctx == cur);
    let k: usize = kani::any();
    kani::assume(k < MQC_NUMCTXS && k != cur as usize);
    assert!(same(q.ctxs[k], other));
    assert!(einv(q.a, q.c, q.ct, t[w.bp]));
    // every newly emitted pair is free of marker codes
    assert!(w.bp >= 1 && w.bp <= 4);
    assert!(w.bp < 2 || !(t[1] == 0xFF && t[2] > 0x8F));
    assert!(w.bp < 3 || !(t[2] == 0xFF && t[3] > 0x8F));
    assert!(w.bp < 4 || !(t[3] == 0xFF && t[4] > 0x8F));
}

//@ mq_flush: complete | fns=opj_mqc_flush,opj_mqc_setbits,opj_mqc_numbytes | what=FLUSH (C.2.9): register filled with ones below the interval top, two bytes emitted, length never ends in 0xFF, byte count is the distance from the start
#[kani::proof]
#[kani::unwind(10)]
fn mq_flush() {
    let mut m = M { mem: kani::any(), bp: 1 };
    let mut q = any_mqc(&mut m);
    kani::assume(einv(q.a, q.c, q.ct, m.mem[1]));
    kani::cover!(m.mem[1] == 0xFF);
    let mut t = m.mem;
    let mut e = E { a: q.a, c: q.c, ct: q.ct, bp: 1 };
    // SETBITS
    let tempc = e.c + e.a;
    e.c |= 0xFFFF;
    if e.c >= tempc { e.c -= 0x8000; }
    e.c <<= e.ct;
    e = iso_byteout(&mut t, e);
    e.c <<= e.ct;
    e = iso_byteout(&mut t, e);
    let end = if t[e.bp] != 0xFF { e.bp + 1 } else { e.bp };
    opj_mqc_flush(&mut q);
    assert!(m.mem == t);
    assert!(pos(&q, &m) == end as isize);
    assert!(t[end - 1] != 0xFF);
    q.start = unsafe { m.mem.as_mut_ptr().add(1) };
    assert!(opj_mqc_numbytes(&mut q) == end as u32 - 1);
}

//@ mq_init_enc: complete | fns=opj_mqc_init_enc,opj_mqc_restart_init_enc,opj_mqc_reset_enc,opj_mqc_resetstates,opj_mqc_setstate | what=INITENC (C.2.8) and the initial states of Table D.7
#[kani::proof]
#[kani::unwind(22)]
fn mq_init_enc() {
    let mut m = M { mem: kani::any(), bp: 0 };
    let k: usize = kani::any();
    kani::assume(k >= 1 && k < W);
    kani::assume(m.mem[k - 1] != 0xFF);
    kani::cover!(k == 3);
    let mut q = any_mqc(&mut m);
    let m0 = m.mem;
    let p = unsafe { m.mem.as_mut_ptr().add(k) };
    opj_mqc_init_enc(&mut q, p);
    assert!(q.a == 0x8000 && q.c == 0 && q.ct == 12 && q.start == p && pos(&q, &m) == k as isize - 1);
    assert!(einv(q.a, q.c, q.ct, m0[k - 1]));
    // restart after a termination
    q.start = unsafe { m.mem.as_mut_ptr().add(1) };
    q.bp = p;
    q.a = kani::any();
    q.c = kani::any();
    q.ct = kani::any();
    opj_mqc_restart_init_enc(&mut q);
    assert!(q.a == 0x8000 && q.c == 0 && q.ct == 12 && pos(&q, &m) == k as isize - 1);
    // Table D.7
    let junk = any_cx();
    q.ctxs = [state_of(junk); MQC_NUMCTXS];
    opj_mqc_reset_enc(&mut q);
    let c: usize = kani::any();
    kani::assume(c < 19);
    let want = if c == 18 { 46 } else if c == 17 { 3 } else if c == 0 { 4 } else { 0 };
    assert!(same(q.ctxs[c], Cx { i: want, mps: 0 }));
    assert!(m.mem == m0);
}

//@ mq_bypass_enc: complete | fns=opj_mqc_bypass_enc,opj_mqc_bypass_enc_macro,opj_mqc_bypass_init_enc | what=raw bits packed most significant first; byte emitted when full; 7-bit byte after 0xFF; emitted bytes after 0xFF stay below 0x80
#[kani::proof]
fn mq_bypass_enc() {
    let mut m = M { mem: kani::any(), bp: kani::any() };
    kani::assume(m.bp >= 1 && m.bp < W);
    let mut q = any_mqc(&mut m);
    // ct free positions are zero, fits in the space left after the previous byte
    let prev_ff = m.mem[m.bp - 1] == 0xFF;
    let fresh = q.ct == BYPASS_CT_INIT;
    kani::assume(fresh || (q.ct >= 1 && q.ct <= 8));
    if fresh { kani::assume(!prev_ff); }
    let ct0 = if fresh { 8 } else { q.ct };
    kani::assume(!(prev_ff && ct0 > 7));
    kani::assume(q.c < if prev_ff { 0x80 } else { 0x100 } && q.c & ((1u32 << ct0) - 1) == 0);
    let bit: u32 = kani::any();
    kani::assume(bit <= 1);
    kani::cover!(fresh);
    kani::cover!(ct0 == 1 && q.c == 0xFE && bit == 1);
    kani::cover!(prev_ff);
    let mut t = m.mem;
    let c1 = q.c + (bit << (ct0 - 1));
    let (mut c, mut ct, mut bp) = (c1, ct0 - 1, m.bp);
    if ct == 0 {
        t[bp] = c1 as u8;
        ct = if c1 == 0xFF { 7 } else { 8 };
        bp += 1;
        c = 0;
    }
    opj_mqc_bypass_enc(&mut q, bit);
    assert!(q.c == c && q.ct == ct && pos(&q, &m) == bp as isize);
    assert!(m.mem == t);
    if bp > m.bp && prev_ff { assert!(t[m.bp] < 0x80); }
}
