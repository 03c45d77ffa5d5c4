// Contracts of the packet-header bit reader/writer (ISO 15444-1 B.10.1 bit stuffing).
// The memory window is 8 bytes; every function touches at most the 5 bytes from the
// current position, at any position and any distance to the end of the window, so the
// per-operation contracts are not restricted by the window.
const W: usize = 8;

#[derive(Copy, Clone, PartialEq, Eq)]
struct S { bp: usize, buf: u32, ct: u32 }

struct Sym { mem: [u8; W], bp: usize, end: usize, buf: u32, ct: u32 }

fn any_sym() -> Sym {
    let s = Sym { mem: kani::any(), bp: kani::any(), end: kani::any(), buf: kani::any(), ct: kani::any() };
    kani::assume(s.bp <= s.end && s.end <= W);
    kani::assume(s.ct <= 8 && s.buf <= 0xFFFF);
    s
}

/// Writer invariant: bits not yet written are zero; after an 0xFF byte only 7 bits are offered.
fn winv(buf: u32, ct: u32) -> bool {
    ct <= 8 && buf <= 0xFFFF && (buf & ((1u32 << ct) - 1)) == 0
        && ((buf >> 8) != 0xFF || (ct <= 7 && buf & 0x80 == 0))
}

/// Reader invariant: after an 0xFF byte at most 7 bits of the next byte remain.
fn rinv(buf: u32, ct: u32) -> bool {
    ct <= 8 && buf <= 0xFFFF && ((buf >> 8) != 0xFF || ct <= 7)
}

fn mk(s: &mut Sym) -> opj_bio {
    let p = s.mem.as_mut_ptr();
    unsafe { opj_bio { start: p, end: p.add(s.end), bp: p.add(s.bp), buf: s.buf, ct: s.ct } }
}
fn st(b: &opj_bio) -> S {
    S { bp: unsafe { b.bp.offset_from(b.start) } as usize, buf: b.buf, ct: b.ct }
}

/// Specification: put one bit.
fn spec_put(mem: &mut [u8; W], end: usize, s: S, b: u32) -> S {
    let mut s = s;
    if s.ct == 0 {
        let byte = (s.buf & 0xFF) as u8;
        if s.bp < end { mem[s.bp] = byte; s.bp += 1; }
        s.buf = (byte as u32) * 256;
        s.ct = if byte == 0xFF { 7 } else { 8 };
    }
    s.ct -= 1;
    s.buf += (b & 1) * (1u32 << s.ct);
    s
}
/// Specification: get one bit (a missing byte reads as zero bits).
fn spec_get(mem: &[u8; W], end: usize, s: S) -> (S, u32) {
    let mut s = s;
    if s.ct == 0 {
        let last = s.buf & 0xFF;
        let mut next = 0;
        if s.bp < end { next = mem[s.bp] as u32; s.bp += 1; }
        s.ct = if last == 0xFF { 7 } else { 8 };
        s.buf = last * 256 + next;
    }
    s.ct -= 1;
    (s, (s.buf / (1u32 << s.ct)) % 2)
}

//@ c01_putbit: complete | fns=opj_bio_putbit,opj_bio_byteout | what=one bit appended; a full byte is emitted once, in order, inside the buffer, with a stuffed zero bit after 0xFF; frame: no other byte changes
#[kani::proof]
fn c01_putbit() {
    let mut y = any_sym();
    kani::assume(winv(y.buf, y.ct));
    let b: u32 = kani::any();
    kani::assume(b <= 1);
    kani::cover!(y.ct == 0 && y.buf & 0xFF == 0xFF && y.bp < y.end);
    kani::cover!(y.ct == 0 && y.bp == y.end);
    let mut sm = y.mem;
    let end = y.end;
    let s0 = S { bp: y.bp, buf: y.buf, ct: y.ct };
    let want = spec_put(&mut sm, end, s0, b);
    let mut bio = mk(&mut y);
    let (st0, en0) = (bio.start, bio.end);
    unsafe { opj_bio_putbit(&mut bio, b) };
    assert!(st(&bio) == want);
    assert!(bio.start == st0 && bio.end == en0);
    assert!(y.mem == sm);
    assert!(winv(want.buf, want.ct));
}

//@ c01_getbit: complete | fns=opj_bio_getbit,opj_bio_bytein | what=next bit in order, skipping the stuffed bit after 0xFF, never reading past the end
#[kani::proof]
fn c01_getbit() {
    let mut y = any_sym();
    kani::assume(rinv(y.buf, y.ct));
    kani::cover!(y.ct == 0 && y.buf & 0xFF == 0xFF && y.bp < y.end);
    let m0 = y.mem;
    let end = y.end;
    let (want, bit) = spec_get(&m0, end, S { bp: y.bp, buf: y.buf, ct: y.ct });
    let mut bio = mk(&mut y);
    let r = unsafe { opj_bio_getbit(&mut bio) };
    assert!(r == bit);
    assert!(st(&bio) == want);
    assert!(y.mem == m0);
    assert!(rinv(want.buf, want.ct));
}

//@ c01_write: complete | fns=opj_bio_write | what=n bits of v appended most significant first, n in 1..=32
#[kani::proof]
#[kani::unwind(34)]
fn c01_write() {
    // position 1 in the window: c01_putbit shows the step is position independent
    let mut y = any_sym();
    kani::assume(y.bp == 1);
    y.bp = 1;
    kani::assume(winv(y.buf, y.ct));
    let v: u32 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 32);
    kani::cover!(n == 32);
    let mut sm = y.mem;
    let end = y.end;
    let mut s = S { bp: y.bp, buf: y.buf, ct: y.ct };
    let mut k = 0u32;
    while k < 32 {
        // most significant of the n bits first
        if k >= 32 - n { s = spec_put(&mut sm, end, s, (v >> (31 - k)) & 1); }
        k += 1;
    }
    let mut bio = mk(&mut y);
    unsafe { opj_bio_write(&mut bio, v, n) };
    assert!(st(&bio) == s);
    assert!(y.mem == sm);
}

//@ c01_read: complete | fns=opj_bio_read | what=n bits returned most significant first, n in 1..=32
#[kani::proof]
#[kani::unwind(34)]
fn c01_read() {
    let mut y = any_sym();
    kani::assume(y.bp == 1);
    y.bp = 1;
    kani::assume(rinv(y.buf, y.ct));
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 32);
    kani::cover!(n == 32);
    let m0 = y.mem;
    let end = y.end;
    let mut s = S { bp: y.bp, buf: y.buf, ct: y.ct };
    let mut v = 0u32;
    let mut k = 0u32;
    while k < 32 {
        if k < n { let (s2, b) = spec_get(&m0, end, s); s = s2; v = (v << 1) | b; }
        k += 1;
    }
    let mut bio = mk(&mut y);
    let r = unsafe { opj_bio_read(&mut bio, n) };
    assert!(r == v);
    assert!(st(&bio) == s);
    assert!(y.mem == m0);
}

//@ c01_flush: complete | fns=opj_bio_flush | what=pending byte emitted, followed by a zero byte exactly when it is 0xFF; fails without touching memory past the end
#[kani::proof]
fn c01_flush() {
    let mut y = any_sym();
    kani::assume(winv(y.buf, y.ct));
    kani::cover!(y.buf & 0xFF == 0xFF && y.bp + 1 < y.end);
    let mut sm = y.mem;
    let (bp, end) = (y.bp, y.end);
    let byte = (y.buf & 0xFF) as u8;
    let mut nb = bp;
    let mut ok = 1;
    if nb < end { sm[nb] = byte; nb += 1; } else { ok = 0; }
    if ok == 1 && byte == 0xFF {
        if nb < end { sm[nb] = 0; nb += 1; } else { ok = 0; }
    }
    let mut bio = mk(&mut y);
    let r = unsafe { opj_bio_flush(&mut bio) };
    assert!((r != 0) == (ok == 1));
    assert!(st(&bio).bp == nb);
    assert!(y.mem == sm);
    // A flushed header never ends in 0xFF.
    if r != 0 { assert!(y.mem[nb - 1] != 0xFF); }
}

//@ c01_inalign: complete | fns=opj_bio_inalign | what=reader moves to the next byte boundary, consuming the stuffing byte after 0xFF
#[kani::proof]
fn c01_inalign() {
    let mut y = any_sym();
    kani::assume(rinv(y.buf, y.ct));
    kani::cover!(y.buf & 0xFF == 0xFF && y.bp < y.end);
    let m0 = y.mem;
    let (bp, end, buf) = (y.bp, y.end, y.buf);
    let mut bio = mk(&mut y);
    let r = unsafe { opj_bio_inalign(&mut bio) };
    if buf & 0xFF == 0xFF {
        if bp < end { assert!(r != 0 && st(&bio).bp == bp + 1); } else { assert!(r == 0 && st(&bio).bp == bp); }
    } else {
        assert!(r != 0 && st(&bio).bp == bp);
    }
    if r != 0 { assert!(bio.ct == 0); }
    assert!(y.mem == m0);
}

//@ c01_init: complete | fns=opj_bio_init_enc,opj_bio_init_dec,opj_bio_numbytes | what=initial state satisfies the invariant and covers exactly the given bytes; byte count is the distance from the start
#[kani::proof]
fn c01_init() {
    let mut y = any_sym();
    let p = y.mem.as_mut_ptr();
    let mut bio = mk(&mut y);
    let len: u32 = kani::any();
    kani::assume(len as usize <= W);
    kani::cover!(len == 5);
    unsafe { opj_bio_init_enc(&mut bio, p, len) };
    assert!(bio.start == p && bio.bp == p && bio.end == unsafe { p.add(len as usize) });
    assert!(winv(bio.buf, bio.ct) && bio.ct == 8 && bio.buf == 0);
    assert!(unsafe { opj_bio_numbytes(&mut bio) } == 0);
    unsafe { opj_bio_init_dec(&mut bio, p, len) };
    assert!(bio.start == p && bio.bp == p && bio.end == unsafe { p.add(len as usize) });
    assert!(rinv(bio.buf, bio.ct) && bio.ct == 0 && bio.buf == 0);
    let k: usize = kani::any();
    kani::assume(k <= len as usize);
    bio.bp = unsafe { p.add(k) };
    assert!(unsafe { opj_bio_numbytes(&mut bio) } == k as isize);
}

/// Relation between the writer after k bits and the reader after k bits, where `m` is the
/// memory the writer will have produced in the end (each position is written once, and a
/// written bit is never changed: c01_putbit).
fn rel(m: &[u8; W], w: S, r: S) -> bool {
    w.bp < W && r.bp == w.bp + 1 && r.ct == w.ct && (r.buf >> 8) == (w.buf >> 8)
        && r.buf & 0xFF == m[w.bp] as u32
        && (m[w.bp] as u32) >> w.ct == (w.buf & 0xFF) >> w.ct
}

//@ c01_roundtrip_step: complete | fns=opj_bio_putbit,opj_bio_getbit | what=inductive step of write-then-read identity over any history of bits
#[kani::proof]
fn c01_roundtrip_step() {
    let m: [u8; W] = kani::any();
    let mut wmem: [u8; W] = kani::any();
    let mut rmem = m;
    let w = S { bp: kani::any(), buf: kani::any(), ct: kani::any() };
    let r = S { bp: kani::any(), buf: kani::any(), ct: kani::any() };
    kani::assume(winv(w.buf, w.ct) && w.bp < W);
    let started: bool = kani::any();
    if started {
        kani::assume(r.bp <= W && rinv(r.buf, r.ct));
        kani::assume(rel(&m, w, r));
    } else {
        // initial states of writer and reader
        kani::assume(w.bp == 0 && w.buf == 0 && w.ct == 8 && r.bp == 0 && r.buf == 0 && r.ct == 0);
    }
    // room for the writer's next byte
    kani::assume(w.bp + 1 < W);
    kani::cover!(started && w.ct == 0);
    kani::cover!(!started);
    let b: u32 = kani::any();
    kani::assume(b <= 1);
    let wp = wmem.as_mut_ptr();
    let rp = rmem.as_mut_ptr();
    unsafe {
        let mut wb = opj_bio { start: wp, end: wp.add(W), bp: wp.add(w.bp), buf: w.buf, ct: w.ct };
        let mut rb = opj_bio { start: rp, end: rp.add(W), bp: rp.add(r.bp), buf: r.buf, ct: r.ct };
        opj_bio_putbit(&mut wb, b);
        let w2 = st(&wb);
        if w2.bp > w.bp { assert!(wmem[w.bp] == m[w.bp]); }
        // what the writer has placed in the current byte is what memory will hold
        kani::assume((m[w2.bp] as u32) >> w2.ct == (w2.buf & 0xFF) >> w2.ct);
        // the stuffed bit is written as zero
        kani::cover!(w2.buf >> 8 == 0xFF);
        let got = opj_bio_getbit(&mut rb);
        assert!(got == b);
        assert!(rel(&m, w2, st(&rb)));
    }
}
