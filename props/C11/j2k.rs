// Contract of the tile-part reader over the stream's contract.
fn zi<T>() -> T { unsafe { core::mem::zeroed() } }
static mut SIZE: usize = 0;
static mut BUF: *mut u8 = core::ptr::null_mut();
static mut BYTE_LEFT: i64 = 0;
static mut ASKED: usize = 0;
static mut GOT: usize = 0;
unsafe fn alloc(n: usize) -> *mut core::ffi::c_void {
    SIZE = n;
    BUF = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
    BUF as *mut core::ffi::c_void
}
unsafe fn resize(p: *mut core::ffi::c_void, n: usize) -> *mut core::ffi::c_void {
    assert!(p as *mut u8 == BUF);
    alloc(n)
}
fn any_left(_: *mut opj_stream_private_t) -> i64 { unsafe { BYTE_LEFT } }
fn any_data(_: *mut opj_stream_private_t, b: *mut u8, n: usize, _: &mut opj_event_mgr) -> usize {
    unsafe {
        // the bytes asked for have their place in the tile's buffer, with the two bytes a decoder adds after them
        let off = b.offset_from(BUF);
        assert!(off >= 0 && off as usize + n + 2 <= SIZE);
        ASKED = n;
        if kani::any() { return usize::MAX; }
        let got: usize = kani::any();
        kani::assume(got <= n);
        GOT = got;
        got
    }
}

//@ tile_data: complete | fns=opj_j2k_read_sod | what=the data of successive tile-parts is appended, sized by the bytes really read (none at the end of the stream), with room for the decoder's end marker; a short tile-part ends the tile's headers and in strict mode one longer than the stream is refused
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(opj_malloc, alloc)]
#[kani::stub(opj_realloc, resize)]
#[kani::stub(opj_stream_get_number_byte_left, any_left)]
#[kani::stub(opj_stream_read_data, any_data)]
fn tile_data() {
    struct O { j: core::mem::ManuallyDrop<opj_j2k>, tcp: opj_tcp_t }
    let mut o: O = zi();
    let mut st = core::mem::ManuallyDrop::new(Stream::new_custom(1, true));
    let mut ev = core::mem::ManuallyDrop::new(opj_event_mgr::default());
    let before: u32 = kani::any();
    kani::assume(before < 1 << 31);
    let have: bool = kani::any();
    unsafe {
        if have {
            alloc(before as usize + 2);
            o.tcp.m_data = BUF;
            o.tcp.m_data_size = before;
        }
        BYTE_LEFT = kani::any();
        kani::assume(BYTE_LEFT >= 0);
    }
    let before = o.tcp.m_data_size;
    o.j.m_cp.tcps = core::ptr::addr_of_mut!(o.tcp);
    o.j.m_cp.strict = kani::any::<bool>() as i32;
    let last: bool = kani::any();
    let sot: u32 = kani::any();
    kani::assume(sot < 1 << 30 && sot != 1);
    o.j.m_specific_param.m_decoder.m_last_tile_part = last as i32;
    o.j.m_specific_param.m_decoder.m_sot_length = sot;
    unsafe { kani::assume(!last || BYTE_LEFT < 1 << 30); }
    let r = opj_j2k_read_sod(&mut o.j, &mut st, &mut ev);
    unsafe {
        let want = if last { BYTE_LEFT - 2 } else { (sot as i64 - 2).max(0) };
        if r != 0 {
            assert!(ASKED as i64 == want);
            assert!(o.tcp.m_data_size == before + GOT as u32);
            assert!(GOT as i64 == want || o.j.m_specific_param.m_decoder.m_state == J2KState::NEOC);
            assert!(GOT as i64 != want || o.j.m_specific_param.m_decoder.m_state == J2KState::TPHSOT);
            assert!(want <= BYTE_LEFT || o.j.m_cp.strict == 0);
            if GOT > 0 { assert!(o.tcp.m_data == BUF); }
        } else {
            assert!(want < 0 || want > BYTE_LEFT && o.j.m_cp.strict != 0);
        }
        kani::cover!(r != 0 && have && before > 0 && GOT > 0 && (GOT as i64) < want);
        kani::cover!(r == 0);
        kani::cover!(r != 0 && last && GOT > 0);
    }
}
