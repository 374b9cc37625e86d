//! Mirrored buffers of few slots: the crate is made to believe that pages are of one byte, while the items fill real pages.

use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, Ordering};

static SMALL: AtomicBool = AtomicBool::new(false);
pub fn small() -> bool { SMALL.load(Ordering::Relaxed) }

extern "C" { fn dlsym(handle: *mut c_void, symbol: *const c_char) -> *mut c_void; }

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    // _SC_PAGESIZE
    if small() && name == 30 { return 1; }
    let real: extern "C" fn(c_int) -> c_long = std::mem::transmute(dlsym(-1isize as *mut c_void, c"sysconf".as_ptr()));
    real(name)
}
#[no_mangle]
pub extern "C" fn getpagesize() -> c_int { if small() { 1 } else { 4096 } }

/// `false`: the crate cannot be made to believe it.
pub fn pretend() -> bool {
    SMALL.store(true, Ordering::Relaxed);
    #[cfg(feature = "vmem")]
    let done = mutringbuf::vmem_helper::get_page_size_mul(3) == 3;
    #[cfg(not(feature = "vmem"))]
    let done = false;
    done
}
