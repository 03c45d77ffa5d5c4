// Contracts of the byte streams between the codec and the application.  Layers, each by contract
// of the one below: the application's callbacks, which may deliver, take or skip fewer bytes than
// asked for; CustomStream; std's BufReader and BufWriter (assumed: Read, Write and Seek); Stream.
use core::ffi::c_void;
const N: usize = 6;
static mut D: [u8; N] = [0; N]; // what the source holds, or the sink received
static mut LEN: usize = 0;
static mut POS: usize = 0;
static mut AT: i64 = 0; // position of the layer below

fn some(most: usize) -> usize {
    let n: usize = kani::any();
    kani::assume(n >= 1 && n <= most);
    n
}

fn nolog() -> log::LevelFilter { log::LevelFilter::Off }

fn stream(cap: usize, input: bool) -> Stream { Stream::new_custom(cap, input) }

fn any_read(_: &mut StreamInner, buf: &mut [u8]) -> std::io::Result<usize> {
    unsafe {
        if kani::any() { return Err(std::io::ErrorKind::Other.into()); }
        if POS >= LEN || buf.len() == 0 { return Ok(0); }
        let n = some(buf.len().min(LEN - POS));
        let mut i = 0;
        while i < N {
            if i < n { buf[i] = D[POS + i]; }
            i += 1;
        }
        POS += n;
        Ok(n)
    }
}

static mut FAILED: bool = false;

fn any_write(_: &mut StreamInner, buf: &[u8]) -> std::io::Result<usize> {
    unsafe {
        assert!(!FAILED);
        FAILED = kani::any();
        if FAILED { return Err(std::io::ErrorKind::Other.into()); }
        if buf.len() == 0 { return Ok(0); }
        let n = some(buf.len());
        let mut i = 0;
        while i < N {
            if i < n { D[POS + i] = buf[i]; }
            i += 1;
        }
        POS += n;
        Ok(n)
    }
}

fn offset() -> i64 {
    let at: i64 = kani::any();
    kani::assume(at >= 0 && at < 1 << 60);
    at
}

//@ read: bounded(reads of up to 6 bytes) | fns=Stream::read | what=a read returns the next bytes in order, as many as asked for or as the source still has, whatever the chunks the layer below delivers them in, and tell() counts them
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
#[kani::stub(<StreamInner as Read>::read, any_read)]
fn read() {
    unsafe {
        D = kani::any();
        LEN = kani::any();
        kani::assume(LEN <= N);
    }
    let mut s = stream(1, true);
    let at = offset();
    s.m_byte_offset = at;
    let n: usize = kani::any();
    kani::assume(n <= N);
    let mut b = [0xa5u8; N];
    let got = s.read(&mut b[..n]);
    let nb = match got { Ok(nb) => nb, Err(e) => { core::mem::forget(e); 0 } };
    unsafe {
        assert!(nb == POS);
        assert!(s.tell() == at + nb as i64);
        let i: usize = kani::any();
        kani::assume(i < nb);
        assert!(b[i] == D[i]);
    }
    kani::cover!(nb == 4 && n == 5);
    core::mem::forget(s);
}

//@ write: bounded(writes of up to 6 bytes) | fns=Stream::write | what=a write that reports success has passed every byte on in order, whatever the chunks the layer below takes them in, and tell() counts them; nothing is written after a failure
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
#[kani::stub(<StreamInner as Write>::write, any_write)]
fn write() {
    let mut s = stream(1, false);
    let at = offset();
    s.m_byte_offset = at;
    let b: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N);
    let ok = match s.write(&b[..n]) { Ok(nb) => { assert!(nb == n); true }, Err(e) => { core::mem::forget(e); false } };
    unsafe {
        assert!(ok == !FAILED);
        if ok {
            assert!(POS == n && s.tell() == at + n as i64);
            let i: usize = kani::any();
            kani::assume(i < n);
            assert!(b[i] == D[i]);
        } else {
            assert!(s.tell() == at);
        }
    }
    kani::cover!(ok && n == 5);
    kani::cover!(!ok);
    core::mem::forget(s);
}

static mut CAN_SEEK: bool = false;

fn any_relative(_: &mut StreamInner, d: i64) -> std::io::Result<()> {
    unsafe {
        // a custom stream moves by its skip callback, which may refuse to go back
        if (d < 0 || !CAN_SEEK) && kani::any() { return Err(std::io::ErrorKind::Other.into()); }
        AT += d;
        Ok(())
    }
}

fn any_seek(_: &mut StreamInner, p: SeekFrom) -> std::io::Result<u64> {
    unsafe {
        match p {
            SeekFrom::Start(x) if CAN_SEEK && x <= i64::MAX as u64 => AT = x as i64,
            SeekFrom::Current(d) if d >= 0 || kani::any() => AT += d,
            _ => return Err(std::io::ErrorKind::Other.into()),
        }
        Ok(AT as u64)
    }
}

fn can_seek(_: &StreamInner) -> bool { unsafe { CAN_SEEK } }

//@ skip: complete | fns=Stream::skip,opj_stream_skip | what=a skip moves exactly that many bytes forward; a negative one, and one past the end of a stream of known length, is refused and moves nothing
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
#[kani::stub(StreamInner::seek_relative, any_relative)]
#[kani::stub(<StreamInner as Seek>::seek, any_seek)]
#[kani::stub(std::fmt::format, no_text)]
fn skip() {
    let mut s = stream(1, kani::any());
    let at = offset();
    s.m_byte_offset = at;
    s.m_stream_length = kani::any();
    let c: i64 = kani::any();
    kani::assume(c < 1 << 60);
    unsafe { AT = at; CAN_SEEK = kani::any(); }
    let len = s.m_stream_length;
    kani::assume(len == 0 || at as u64 <= len);
    let mut ev = core::mem::ManuallyDrop::new(opj_event_mgr::default());
    let r = opj_stream_skip(&mut s, c, &mut ev);
    unsafe {
        assert!(s.tell() == AT);
        assert!(AT == if r == -1 { at } else { at + c });
        assert!(r == c || r == -1);
        if c < 0 || (len != 0 && (at + c) as u64 > len) { assert!(r == -1); } else if CAN_SEEK { assert!(r == c); }
    }
    kani::cover!(r == -1 && c > 0);
    kani::cover!(r > 0 && len != 0 && at > 0);
    core::mem::forget(s);
}
fn no_text(_: core::fmt::Arguments<'_>) -> String { String::new() }

//@ seek: complete | fns=Stream::seek,opj_stream_seek | what=a successful seek, from any position to any other, leaves the layer below and tell() at that offset, a failed one leaves tell() where the stream is; a stream that can seek reaches every offset
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
#[kani::stub(StreamInner::seek_relative, any_relative)]
#[kani::stub(StreamInner::has_seek, can_seek)]
#[kani::stub(<StreamInner as Seek>::seek, any_seek)]
#[kani::stub(std::fmt::format, no_text)]
fn seek() {
    let mut s = stream(1, kani::any());
    let at = offset();
    s.m_byte_offset = at;
    let to: i64 = kani::any();
    kani::assume(to > -(1 << 60) && to < 1 << 60);
    unsafe { AT = at; CAN_SEEK = kani::any(); }
    let mut ev = core::mem::ManuallyDrop::new(opj_event_mgr::default());
    let r = opj_stream_seek(&mut s, to, &mut ev) != 0;
    unsafe {
        assert!(s.tell() == AT);
        assert!(AT == if r { to } else { at });
        if to >= 0 && CAN_SEEK { assert!(r); }
        if to < 0 { assert!(!r); }
    }
    kani::cover!(r && to < at);
    kani::cover!(!r);
    core::mem::forget(s);
}

//@ left: complete | fns=Stream::get_bytes_left,Stream::set_stream_length | what=the bytes left are the length minus the position, and zero when the length is unknown or already passed
#[kani::proof]
#[kani::stub(log::max_level, nolog)]
fn left() {
    let mut s = stream(1, true);
    let at = offset();
    s.m_byte_offset = at;
    let len: u64 = kani::any();
    kani::assume(len < 1 << 63);
    s.set_stream_length(len);
    let l = opj_stream_get_number_byte_left(&mut s);
    assert!(l == if len > at as u64 { len as i64 - at } else { 0 });
    kani::cover!(l > 0 && at > 0);
    kani::cover!(len == 0);
    core::mem::forget(s);
}

// ---- callbacks -----------------------------------------------------------------------------
static mut ARG: (usize, usize, usize) = (0, 0, 0);
static mut RES: i64 = 0;
static mut CALLS: usize = 0;
unsafe extern "C" fn rd(b: *mut c_void, n: usize, u: *mut c_void) -> usize {
    CALLS += 1;
    ARG = (b as usize, n, u as usize);
    RES as usize
}
unsafe extern "C" fn sk(n: i64, u: *mut c_void) -> i32 {
    CALLS += 1;
    ARG = (n as usize, 0, u as usize);
    RES as i32
}

fn custom() -> core::mem::ManuallyDrop<CustomStream> {
    core::mem::ManuallyDrop::new(CustomStream {
        m_user_data: 0x1230 as *mut c_void,
        m_free_user_data_fn: None,
        m_read_fn: None,
        m_write_fn: None,
        m_skip_fn: None,
        m_seek_fn: None,
        m_byte_offset: offset(),
    })
}

//@ callbacks: complete | fns=CustomStream::read,CustomStream::write,CustomStream::seek,CustomStream::set_read,CustomStream::set_write,CustomStream::set_seek,CustomStream::has_seek | what=one read, write or seek is one call of the application's function with the caller's buffer, length or offset and its user data; its result is passed on, -1 (or 0 for seek) and a missing function as an error
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
fn callbacks() {
    let mut c = custom();
    let at = c.m_byte_offset;
    let mut b = [0u8; N];
    let n: usize = kani::any();
    kani::assume(n <= N);
    let res: i64 = kani::any();
    kani::assume(res >= -1 && res < 1 << 40);
    unsafe { RES = res; }
    let set: bool = kani::any();
    let what: u8 = kani::any();
    kani::assume(what < 3);
    let p = b.as_mut_ptr() as usize;
    let r = match what {
        0 => {
            if set { c.set_read(Some(rd)); }
            c.read(&mut b[..n])
        }
        1 => {
            if set { c.set_write(Some(rd)); }
            c.write(&b[..n])
        }
        _ => {
            if set { c.set_seek(Some(sk)); }
            assert!(c.has_seek() == set);
            unsafe { RES &= 1; }
            c.seek(SeekFrom::Start(res as u64)).map(|x| x as usize)
        }
    };
    let ok = match r {
        Ok(x) => { assert!(x as i64 == res); true }
        Err(e) => { core::mem::forget(e); false }
    };
    unsafe {
        assert!(CALLS == set as usize);
        if set && what < 2 {
            assert!(ARG == (p, n, 0x1230));
            assert!(ok == (res != -1));
            assert!(c.m_byte_offset == at + if ok { res } else { 0 });
        } else if set {
            assert!(ARG == (res as usize, 0, 0x1230));
            assert!(ok == (RES != 0));
            assert!(c.m_byte_offset == if ok { res } else { at });
        } else {
            assert!(!ok && c.m_byte_offset == at);
        }
    }
    kani::cover!(ok && what == 2);
    kani::cover!(!ok && set && what == 0);
}

static mut LEFT: i64 = 0;
static mut REFUSED: bool = false;
unsafe extern "C" fn skipper(n: i64, u: *mut c_void) -> i64 {
    CALLS += 1;
    kani::assume(CALLS <= 4);
    assert!(u as usize == 0x1230 && n == LEFT && n > 0 && !REFUSED);
    REFUSED = kani::any();
    if REFUSED { return -1; }
    let d: i64 = kani::any();
    kani::assume(d >= 1 && d <= n);
    LEFT -= d;
    d
}

//@ short_skip: bounded(the application's function called up to 4 times) | fns=CustomStream::seek,CustomStream::set_skip | what=a skip the application only performs in part is continued until exactly the requested number of bytes was skipped, or it refuses
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
fn short_skip() {
    let mut c = custom();
    let at = c.m_byte_offset;
    let n = offset();
    kani::assume(n > 0);
    unsafe { LEFT = n; }
    let set: bool = kani::any();
    if set { c.set_skip(Some(skipper)); }
    let ok = match c.seek(SeekFrom::Current(n)) {
        Ok(x) => { assert!(x as i64 == at + n); true }
        Err(e) => { core::mem::forget(e); false }
    };
    unsafe {
        assert!(ok == (set && !REFUSED));
        if ok { assert!(LEFT == 0); }
    }
    kani::cover!(ok && unsafe { CALLS } == 3);
    kani::cover!(!ok && set);
}

// ---- the whole stack, with std's buffers ---------------------------------------------------
unsafe extern "C" fn source(b: *mut c_void, n: usize, _: *mut c_void) -> usize {
    assert!(n > 0);
    if POS >= LEN { return if kani::any() { usize::MAX } else { 0 }; }
    let n = some(n.min(LEN - POS));
    let b = b as *mut u8;
    let mut i = 0;
    while i < 3 {
        if i < n { *b.add(i) = D[POS + i]; }
        i += 1;
    }
    POS += n;
    n
}
unsafe extern "C" fn to(n: i64, _: *mut c_void) -> i32 {
    if n < 0 || n > N as i64 { return 0; }
    POS = n as usize;
    1
}

//@ stack: bounded(a source of up to 4 bytes in any chunks, a 2-byte buffer, reads of 1 and 3 bytes with a seek to byte 0 to 2 between) | fns=Stream::read,Stream::seek,CustomStream::read,CustomStream::seek,Stream::new_custom | tier=thorough | what=with std's own buffering, a read after a seek returns the source's bytes at that position
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(log::max_level, nolog)]
fn stack() {
    unsafe {
        D = kani::any();
        LEN = 4;
        let mut s = stream(2, true);
        let c = s.as_custom().unwrap();
        c.set_read(Some(source));
        c.set_seek(Some(to));
        let mut b = [0u8; 1];
        core::mem::forget(s.read(&mut b));
        assert!(b[0] == D[0]);
        let p: i64 = 2;
        let r = s.seek(p);
        assert!(r.is_ok());
        core::mem::forget(r);
        let mut b = [0u8; 3];
        let r = s.read(&mut b);
        let nb = match r { Ok(n) => n, Err(e) => { core::mem::forget(e); 0 } };
        assert!(nb == 3.min(LEN.saturating_sub(p as usize)));
        let i: usize = kani::any();
        kani::assume(i < nb);
        assert!(b[i] == D[p as usize + i]);
        kani::cover!(nb == 2 && p == 2);
        core::mem::forget(s);
    }
}
