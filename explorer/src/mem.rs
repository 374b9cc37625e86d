//! Watches the memory of the buffer: what is allocated while watching gets pages of its own, whose accesses
//! are observed by protecting them; it is not given back before the execution is over.

use crate::rt;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::c_void;

pub const PAGE: usize = 4096;

extern "C" {
    #[cfg(not(feature = "vmem"))]
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    #[cfg(not(feature = "vmem"))]
    fn munmap(addr: *mut c_void, len: usize) -> i32;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub ptr: usize,
    pub size: usize,
    pub pages: usize,
    pub slots: bool,
    pub freed: bool,
}

pub struct Watch {
    pub on: bool,
    pub blocks: [Block; 64],
    pub n: usize,
    /// index of the block of the slots, once everything is set up
    pub slots: Option<usize>,
    /// protection of the pages of the slots: 0 none, 1 read, 3 all
    prot: [u8; 64],
    pub armed: bool,
    /// the views of the slots of a mirrored buffer: address, bytes; how much of them was unmapped
    views: [(usize, usize); 2],
    unmapped: usize,
    len: usize,
}

/// Mirrored buffers: their maps are watched; and pages seem to be of one byte, so that they may be of few slots
/// (the items fill real pages).
#[cfg(feature = "vmem")]
mod mirror {
    use super::*;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn dlsym(handle: *mut c_void, symbol: *const std::ffi::c_char) -> *mut c_void;
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void {
        let p = syscall(9, addr, len, prot as i64, flags as i64, fd as i64, off) as *mut c_void;
        let w = w();
        // shared, of a file, at a given address
        if w.on && p as isize != -1 && flags & 1 != 0 && fd >= 0 {
            if let Some(k) = w.views.iter().position(|v| v.1 == 0) { w.views[k] = (p as usize, len); }
        }
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void { mmap(addr, len, prot, flags, fd, off) }
    #[no_mangle]
    pub unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> i32 {
        let w = w();
        if let Some(i) = w.slots {
            let b = w.blocks[i];
            let a = addr as usize;
            if w.armed && a >= b.ptr && a < b.ptr + b.pages * PAGE {
                if w.unmapped == 0 { rt::freed(i); }
                w.unmapped += len;
                w.blocks[i].freed = w.unmapped >= b.pages * PAGE;
                // it stays reserved until the execution is over
                return mprotect(addr, len, 0);
            }
        }
        syscall(11, addr, len) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
        // _SC_PAGESIZE
        if w().on && name == 30 { return 1; }
        let real: extern "C" fn(i32) -> i64 = std::mem::transmute(dlsym(-1isize as *mut c_void, c"sysconf".as_ptr()));
        real(name)
    }
    #[no_mangle]
    pub extern "C" fn getpagesize() -> i32 { if w().on { 1 } else { 4096 } }
}
#[cfg(feature = "vmem")]
use mirror::{mmap, munmap};

pub static mut W: Watch = Watch {
    on: false,
    blocks: [Block { ptr: 0, size: 0, pages: 0, slots: false, freed: false }; 64],
    n: 0,
    slots: None,
    prot: [3; 64],
    armed: false,
    views: [(0, 0); 2],
    unmapped: 0,
    len: 1,
};

#[allow(static_mut_refs)]
pub fn w() -> &'static mut Watch { unsafe { &mut W } }

pub struct Alloc;
#[global_allocator]
static A: Alloc = Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let w = w();
        if w.on && w.n < 64 {
            let pages = l.size().max(1).div_ceil(PAGE);
            let p = mmap(std::ptr::null_mut(), pages * PAGE, 3, 0x22, -1, 0);
            if p as isize == -1 { return std::ptr::null_mut(); }
            w.blocks[w.n] = Block { ptr: p as usize, size: l.size(), pages, slots: l.align() == PAGE, freed: false };
            w.n += 1;
            return p as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let w = w();
        for i in 0..w.n {
            if w.blocks[i].ptr == p as usize {
                if w.armed { rt::freed(i); }
                if !w.blocks[i].freed && w.armed { mprotect(p as *mut c_void, w.blocks[i].pages * PAGE, 0); }
                w.blocks[i].freed = true;
                return;
            }
        }
        System.dealloc(p, l)
    }
}

/// Everything allocated meanwhile is watched.
pub fn watching<R>(f: impl FnOnce() -> R) -> R {
    w().on = true;
    let r = f();
    w().on = false;
    r
}

/// Starts observing: blocks freed so far are of no interest.
pub fn arm(len: usize) {
    let w = w();
    let mut n = 0;
    for i in 0..w.n {
        let b = w.blocks[i];
        if b.freed { unsafe { munmap(b.ptr as _, b.pages * PAGE); } continue; }
        w.blocks[n] = b;
        n += 1;
    }
    w.n = n;
    if cfg!(feature = "vmem") {
        let (a, b) = (w.views[0].0.min(w.views[1].0), w.views[0].0.max(w.views[1].0));
        if w.views.iter().all(|v| v.1 == len * PAGE) && b == a + len * PAGE {
            w.blocks[n] = Block { ptr: a, size: 2 * len * PAGE, pages: 2 * len, slots: true, freed: false };
            w.n += 1;
            n += 1;
        }
    }
    w.unmapped = 0;
    w.slots = (0..n).find(|i| w.blocks[*i].slots && w.blocks[*i].size == if cfg!(feature = "vmem") { 2 } else { 1 } * len * PAGE);
    w.len = len;
    // a mirrored buffer which is not where it is expected: its slots are not watched
    assert!(cfg!(feature = "vmem") || w.slots.is_some(), "HARNESS: slots not found");
    w.armed = true;
    w.prot = [3; 64];
    protect();
}

/// Before a segment: all slots out of reach.
pub fn protect() {
    let w = w();
    if let (Some(i), true) = (w.slots, w.armed) {
        let b = w.blocks[i];
        for k in 0..b.pages {
            if w.prot[k] != 0 {
                w.prot[k] = 0;
                unsafe { mprotect((b.ptr + k * PAGE) as _, PAGE, 0); }
            }
        }
    }
}

/// The execution is over.
pub fn disarm() {
    let w = w();
    w.armed = false;
    w.slots = None;
    for i in 0..w.n { unsafe { munmap(w.blocks[i].ptr as _, w.blocks[i].pages * PAGE); } }
    w.n = 0;
    w.views = [(0, 0); 2];
}

pub fn block_of(addr: usize) -> Option<usize> {
    let w = w();
    (0..w.n).find(|i| addr >= w.blocks[*i].ptr && addr < w.blocks[*i].ptr + w.blocks[*i].pages * PAGE)
}

pub fn leaked() -> usize { let w = w(); (0..w.n).filter(|i| !w.blocks[*i].freed).count() }

unsafe extern "C" fn on_fault(_: i32, info: *const u8, ctx: *const u8) {
    let addr = *(info.add(16) as *const usize);
    // ucontext: flags, link, stack (3 words), then the registers; REG_ERR is number 19
    let err = *(ctx.add(40 + 19 * 8) as *const u64);
    let write = err & 2 != 0;
    let w = w();
    if w.armed {
        for i in 0..w.n {
            let b = w.blocks[i];
            if addr < b.ptr || addr >= b.ptr + b.pages * PAGE { continue; }
            if b.freed {
                rt::used_after_free(i);
                mprotect(b.ptr as _, b.pages * PAGE, 3);
                return;
            }
            if w.slots == Some(i) {
                let k = (addr - b.ptr) / PAGE;
                let prot = if write { 3 } else { 1 };
                if w.prot[k] & prot != prot {
                    rt::touched(k % w.len, write);
                    w.prot[k] = prot;
                    mprotect((b.ptr + k * PAGE) as _, PAGE, prot as i32);
                    return;
                }
            }
        }
    }
    // not ours: let it happen
    if std::env::var("MRB_DEBUG").is_ok() {
        let rip = *(ctx.add(40 + 16 * 8) as *const u64);
        eprintln!("fault at {addr:x} rip {rip:x} armed {} n {}", w.armed, w.n);
        for i in 0..w.n { eprintln!("{:x?}", w.blocks[i]); }
    }
    let act = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    sigaction(11, &act, std::ptr::null_mut());
    sigaction(7, &act, std::ptr::null_mut());
}

pub fn install() {
    // SA_SIGINFO | SA_NODEFER
    let act = SigAction { handler: on_fault as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
    unsafe {
        assert_eq!(sigaction(11, &act, std::ptr::null_mut()), 0);
        assert_eq!(sigaction(7, &act, std::ptr::null_mut()), 0);
    }
}
