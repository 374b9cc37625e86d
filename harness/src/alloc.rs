//! A global allocator that notices double and foreign frees, overruns, and when watched blocks go.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering};

const ALIVE: u64 = 0x5afe_b10c_a11e_d001;
const FREED: u64 = 0xdead_b10c_f4ee_d002;
const TAIL: usize = 16;
const HEAD: usize = 32;
const QUARANTINE: usize = 1024;
const WATCH: usize = 64;

pub const DOUBLE_FREE: u32 = 1;
pub const BAD_FREE: u32 = 2;
pub const OVERRUN: u32 = 4;
pub const WRONG_LAYOUT: u32 = 8;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    serial: u64,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub ptr: usize,
    pub size: usize,
    pub alive: bool,
}

struct State {
    serial: u64,
    errors: u32,
    live: isize,
    ring: [(usize, usize, usize); QUARANTINE],
    next: usize,
    recording: bool,
    watch: [Block; WATCH],
    watched: usize,
}

pub struct Tracking {
    lock: AtomicBool,
    state: UnsafeCell<State>,
}

unsafe impl Sync for Tracking {}

#[global_allocator]
pub static TRACKING: Tracking = Tracking {
    lock: AtomicBool::new(false),
    state: UnsafeCell::new(State {
        serial: 0,
        errors: 0,
        live: 0,
        ring: [(0, 0, 0); QUARANTINE],
        next: 0,
        recording: false,
        watch: [Block { ptr: 0, size: 0, alive: false }; WATCH],
        watched: 0,
    }),
};

fn front(align: usize) -> usize {
    HEAD.max(align)
}

impl Tracking {
    fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        while self.lock.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.state.get() });
        self.lock.store(false, Ordering::Release);
        r
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let align = layout.align().max(16);
        let raw = System.alloc(Layout::from_size_align_unchecked(front(align) + layout.size() + TAIL, align));
        if raw.is_null() {
            return raw;
        }
        let p = raw.add(front(align));
        // memory as it may come: used before
        p.write_bytes(0x5c, layout.size());
        p.add(layout.size()).write_bytes(0xa5, TAIL);
        self.with(|s| {
            s.serial += 1;
            s.live += layout.size() as isize;
            (p.sub(HEAD) as *mut Head).write(Head { magic: ALIVE, size: layout.size(), align: layout.align(), serial: s.serial });
            if s.recording && s.watched < WATCH {
                s.watch[s.watched] = Block { ptr: p as usize, size: layout.size(), alive: true };
                s.watched += 1;
            }
        });
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let evict = self.with(|s| {
            for b in &mut s.watch[..s.watched] {
                if b.ptr == p as usize {
                    b.alive = false;
                }
            }
            if p as usize % 16 != 0 || (p as usize) < 4096 {
                s.errors |= BAD_FREE;
                return None;
            }
            let head = &mut *(p.sub(HEAD) as *mut Head);
            match head.magic {
                ALIVE => (),
                FREED => {
                    s.errors |= DOUBLE_FREE;
                    return None;
                }
                _ => {
                    s.errors |= BAD_FREE;
                    return None;
                }
            }
            if head.size != layout.size() || head.align != layout.align() {
                s.errors |= WRONG_LAYOUT;
            }
            if (0..TAIL).any(|i| *p.add(head.size + i) != 0xa5) {
                s.errors |= OVERRUN;
            }
            head.magic = FREED;
            s.live -= head.size as isize;
            let align = head.align.max(16);
            let (raw, total) = (p.sub(front(align)) as usize, front(align) + head.size + TAIL);
            p.write_bytes(0xdd, head.size);
            if head.size > 1 << 20 {
                return Some((raw, total, align));
            }
            let old = std::mem::replace(&mut s.ring[s.next], (raw, total, align));
            s.next = (s.next + 1) % QUARANTINE;
            (old.0 != 0).then_some(old)
        });
        if let Some((raw, total, align)) = evict {
            System.dealloc(raw as *mut u8, Layout::from_size_align_unchecked(total, align));
        }
    }
}

/// Starts a new list of watched blocks: whatever is allocated until [`watch_end`].
pub fn watch_begin() {
    TRACKING.with(|s| {
        s.watched = 0;
        s.recording = true;
    });
}

pub fn watch_resume() {
    TRACKING.with(|s| s.recording = true);
}

pub fn watch_end() {
    TRACKING.with(|s| s.recording = false);
}

/// Does something whose allocations are not watched.
pub fn unwatched<R>(f: impl FnOnce() -> R) -> R {
    let was = TRACKING.with(|s| std::mem::take(&mut s.recording));
    let r = f();
    TRACKING.with(|s| s.recording = was);
    r
}

/// Forgets blocks that are gone already.
pub fn watch_prune() {
    TRACKING.with(|s| {
        let mut n = 0;
        for i in 0..s.watched {
            if s.watch[i].alive {
                s.watch[n] = s.watch[i];
                n += 1;
            }
        }
        s.watched = n;
    });
}

pub fn watched() -> ([Block; WATCH], usize) {
    TRACKING.with(|s| (s.watch, s.watched))
}

/// `(alive, all)` watched blocks.
pub fn watch_count() -> (usize, usize) {
    TRACKING.with(|s| (s.watch[..s.watched].iter().filter(|b| b.alive).count(), s.watched))
}

/// Bytes allocated and not freed.
pub fn live() -> isize {
    TRACKING.with(|s| s.live)
}

/// Errors since the last call.
pub fn take_errors() -> u32 {
    TRACKING.with(|s| std::mem::take(&mut s.errors))
}
