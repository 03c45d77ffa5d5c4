// Contract of the constructors of the public API.
static mut MADE: bool = false;
fn any_file<P: AsRef<std::path::Path>>(_: P, size: usize, is_input: bool) -> std::io::Result<Stream> {
    unsafe {
        assert!(size == 7 && is_input);
        MADE = kani::any();
        if MADE { Ok(Stream::new_custom(1, is_input)) } else { Err(std::io::ErrorKind::NotFound.into()) }
    }
}
fn nolog() -> log::LevelFilter { log::LevelFilter::Off }

//@ file_stream: complete | fns=opj_stream_create_file_stream | what=opening a file stream returns a usable stream when the file opens and null when it does not, or has no name
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
#[kani::stub(Stream::new_file, any_file)]
fn file_stream() {
    let name = [b'x' as core::ffi::c_char, 0];
    let none: bool = kani::any();
    unsafe {
        let s = opj_stream_create_file_stream(if none { std::ptr::null() } else { name.as_ptr() }, 7, 1);
        assert!(s.is_null() == (none || !MADE));
        if !s.is_null() {
            let s = &mut *(s as *mut opj_stream_private_t);
            assert!(s.is_input() && s.tell() == 0 && !s.has_seek());
            assert!(s.as_custom().is_some());
        }
        kani::cover!(MADE);
        kani::cover!(!none && !MADE);
    }
}

//@ api_stream: complete | fns=opj_stream_create,opj_stream_set_seek_function,opj_stream_set_user_data_length,opj_stream_set_read_function,opj_stream_set_write_function | what=a stream made through the API has the direction, functions and length it was given
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(log::max_level, nolog)]
fn api_stream() {
    unsafe extern "C" fn rd(_: *mut core::ffi::c_void, _: usize, _: *mut core::ffi::c_void) -> usize { 1 }
    unsafe extern "C" fn wr(_: *mut core::ffi::c_void, _: usize, _: *mut core::ffi::c_void) -> usize { 2 }
    unsafe extern "C" fn sk(_: i64, _: *mut core::ffi::c_void) -> i64 { 3 }
    unsafe extern "C" fn se(_: i64, _: *mut core::ffi::c_void) -> i32 { 4 }
    unsafe {
        let input: bool = kani::any();
        let p = opj_stream_create(1, input as i32);
        opj_stream_set_read_function(p, Some(rd));
        opj_stream_set_write_function(p, Some(wr));
        opj_stream_set_skip_function(p, Some(sk));
        opj_stream_set_user_data_length(p, 99);
        let s = &mut *(p as *mut opj_stream_private_t);
        assert!(s.is_input() == input && !s.has_seek());
        assert!(s.get_bytes_left() == 99 && s.tell() == 0);
        opj_stream_set_seek_function(p, Some(se));
        assert!(s.has_seek());
        let n = core::ptr::null_mut();
        let c = s.as_custom().unwrap();
        assert!(c.m_read_fn.is_some() == input && c.m_write_fn.is_some() == !input);
        if input { assert!(c.m_read_fn.unwrap()(n, 0, n) == 1); } else { assert!(c.m_write_fn.unwrap()(n, 0, n) == 2); }
        assert!(c.m_skip_fn.unwrap()(0, n) == 3);
        assert!(c.m_seek_fn.unwrap()(0, n) == 4);
        kani::cover!(input);
        kani::cover!(!input);
    }
}
