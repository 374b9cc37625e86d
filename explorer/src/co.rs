//! Minimal coroutines: a thread of the program under exploration is one of these.

use std::arch::global_asm;
use std::panic::{catch_unwind, AssertUnwindSafe};

global_asm!(
    ".global mrb_switch",
    "mrb_switch:",
    "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
    "ret",
    ".global mrb_start",
    "mrb_start:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);

extern "C" {
    fn mrb_switch(save: *mut usize, to: usize);
    fn mrb_start();
}

pub const STACK: usize = 256 << 10;

pub struct Co {
    _stack: Vec<u128>,
    rsp: usize,
    back: usize,
    body: Option<Box<dyn FnOnce()>>,
    pub done: bool,
    pub panicked: bool,
}

extern "C" fn entry(co: *mut Co) {
    let c = unsafe { &mut *co };
    let body = c.body.take().unwrap();
    c.panicked = catch_unwind(AssertUnwindSafe(body)).is_err();
    c.done = true;
    loop { c.pause(); }
}

/// Stacks are reused between executions.
static mut POOL: Vec<Vec<u128>> = Vec::new();

impl Co {
    /// `body` may borrow what outlives the coroutine.
    pub fn new(body: Box<dyn FnOnce() + '_>) -> Box<Co> {
        let body: Box<dyn FnOnce()> = unsafe { std::mem::transmute(body) };
        #[allow(static_mut_refs)]
        let mut stack = unsafe { POOL.pop() }.unwrap_or_else(|| vec![0u128; STACK / 16]);
        let top = unsafe { stack.as_mut_ptr().add(STACK / 16) } as usize & !15;
        let mut co = Box::new(Co { _stack: stack, rsp: 0, back: 0, body: Some(body), done: false, panicked: false });
        let sp = (top - 136) as *mut usize;
        unsafe {
            // r15 r14 r13 r12 rbx rbp ret
            for i in 0..6 { sp.add(i).write(0); }
            sp.add(2).write(entry as usize);
            sp.add(3).write(&mut *co as *mut Co as usize);
            sp.add(6).write(mrb_start as usize);
        }
        co.rsp = sp as usize;
        co
    }
    /// Runs it until it pauses or ends.
    pub fn resume(&mut self) {
        unsafe { mrb_switch(&mut self.back, self.rsp) }
    }
    /// From within.
    pub fn pause(&mut self) {
        unsafe { mrb_switch(&mut self.rsp, self.back) }
    }
    /// Gives the stack back; whatever is still on it is forgotten.
    pub fn retire(mut self: Box<Self>) {
        #[allow(static_mut_refs)]
        unsafe { POOL.push(std::mem::take(&mut self._stack)) }
    }
}
