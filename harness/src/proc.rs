//! A pool of child processes, so that a crash or hang of the code under test is an observation.

use std::cell::RefCell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
}

/// Words shared with the children.
pub struct Shared(*mut AtomicU64, usize);
impl Shared {
    pub fn new(words: usize) -> Self {
        let p = unsafe { mmap(std::ptr::null_mut(), words * 8, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Shared(p as _, words)
    }
    fn at(&self, i: usize) -> &AtomicU64 { assert!(i < self.1); unsafe { &*self.0.add(i) } }
    pub fn add(&self, i: usize, x: u64) -> u64 { self.at(i).fetch_add(x, SeqCst) }
    pub fn get(&self, i: usize) -> u64 { self.at(i).load(SeqCst) }
    pub fn set(&self, i: usize, x: u64) { self.at(i).store(x, SeqCst) }
}
impl Drop for Shared { fn drop(&mut self) { unsafe { munmap(self.0 as _, self.1 * 8); } } }

pub struct Child<'a> {
    shared: &'a Shared,
    slot: usize,
    out: RefCell<std::fs::File>,
    resume: Option<(usize, usize)>,
}

pub struct Crash { pub task: usize, pub item: usize, pub step: usize, pub kind: &'static str, pub msg: String }

impl Child<'_> {
    /// `item`: within the task; a crash resumes after it
    pub fn progress(&self, task: usize, item: usize, step: usize) {
        self.shared.set(self.slot * 4, task as u64);
        self.shared.set(self.slot * 4 + 1, item as u64);
        self.shared.set(self.slot * 4 + 2, step as u64);
        self.shared.add(self.slot * 4 + 3, 1);
    }
    pub fn resume(&self) -> Option<(usize, usize)> { self.resume }
    pub fn out(&self, s: &str) {
        use std::io::Write;
        self.out.borrow_mut().write_all(s.as_bytes()).unwrap();
    }
}

pub fn pool(jobs: usize, timeout_ms: u64, body: &dyn Fn(&Child)) -> (Vec<String>, Vec<Crash>, bool) {
    use std::io::{Read, Seek};
    let shared = Shared::new(jobs * 4);
    let dir = std::env::var("RINGCHECK_TMP").unwrap_or_else(|_| "/tmp".into());
    let path = |i: usize| format!("{dir}/rc-{}-{i}", std::process::id());
    let mut files: Vec<std::fs::File> = (0..jobs).map(|i| {
        let f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(path(i)).unwrap();
        std::fs::remove_file(path(i)).unwrap();
        f
    }).collect();
    let start = |slot: usize, resume: Option<(usize, usize)>, f: &std::fs::File| -> i32 {
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let child = Child { shared: &shared, slot, out: RefCell::new(f.try_clone().unwrap()), resume };
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&child))).is_ok();
            unsafe { _exit(if ok { 0 } else { 99 }) }
        }
        pid
    };
    let mut pids: Vec<i32> = (0..jobs).map(|i| start(i, None, &files[i])).collect();
    let mut seen: Vec<(u64, std::time::Instant)> = vec![(0, std::time::Instant::now()); jobs];
    let mut crashes = vec![];
    let mut killed = vec![false; jobs];
    let (mut hangs, mut aborted) = (0, false);
    while pids.iter().any(|p| *p != 0) {
        let mut moved = false;
        for i in 0..jobs {
            if pids[i] == 0 { continue; }
            let mut status = 0;
            if unsafe { waitpid(pids[i], &mut status, 1) } == pids[i] {
                moved = true;
                if status == 0 { pids[i] = 0; continue; }
                let (task, item, step) = (shared.get(i * 4) as usize, shared.get(i * 4 + 1) as usize, shared.get(i * 4 + 2) as usize);
                if status >> 8 == 99 { eprintln!("HARNESS: a child failed by itself: {}", crate::replay::panic_text()); std::process::exit(2); }
                let (kind, msg) = if killed[i] { ("hang", format!("no progress within {timeout_ms} ms")) }
                    else if status & 0x7f != 0 { ("crash", format!("signal {}", status & 0x7f)) } else { ("crash", format!("exit {}", status >> 8)) };
                hangs += killed[i] as usize;
                killed[i] = false;
                crashes.push(Crash { task, item, step, kind, msg });
                seen[i] = (0, std::time::Instant::now());
                aborted |= crashes.len() >= 200 || hangs >= 8;
                pids[i] = if aborted { 0 } else { start(i, Some((task, item + 1)), &files[i]) };
                continue;
            }
            let beat = shared.get(i * 4 + 3);
            if beat != seen[i].0 { seen[i] = (beat, std::time::Instant::now()); }
            else if beat != 0 && seen[i].1.elapsed().as_millis() as u64 > timeout_ms && !killed[i] {
                killed[i] = true;
                unsafe { kill(pids[i], 9) };
            }
        }
        if !moved { std::thread::sleep(std::time::Duration::from_millis(2)); }
    }
    let mut lines = vec![];
    for f in &mut files {
        let mut s = String::new();
        f.rewind().unwrap();
        f.read_to_string(&mut s).unwrap();
        lines.extend(s.lines().map(|l| l.to_string() + "\n"));
    }
    (lines, crashes, aborted)
}
