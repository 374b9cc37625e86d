//! The programs: what each thread calls, on the real iterators, and the events it leaves.

use crate::mem;
use crate::rt::{ev, rt, End, Plan, Rt};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncDetached, AsyncProdIter, AsyncWorkIter, ConsIter, Detached, ProdIter, WorkIter};
use mutringbuf::{ConcurrentHeapRB, HeapSplit, MRBIterator};
use std::fmt::Write;
use std::future::Future;
use std::mem::ManuallyDrop;
use std::pin::pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// An item of a page of its own.
#[derive(Clone, Copy)]
#[repr(C, align(4096))]
pub struct Item { a: u64, rest: [u64; 510], b: u64 }
pub const BAD: u64 = 999_999;

impl Item {
    fn new(v: u64) -> Self { Item { a: v, rest: [v; 510], b: v } }
    fn tag(&self) -> u64 { if self.a == self.b && self.rest[255] == self.a { self.a } else { BAD } }
}

type B = ConcurrentHeapRB<Item>;
type P = ProdIter<'static, B>;
type W = WorkIter<'static, B>;
type C<const K: bool> = ConsIter<'static, B, K>;
type AP = AsyncProdIter<'static, B>;
type AW = AsyncWorkIter<'static, B>;
type AC<const K: bool> = AsyncConsIter<'static, B, K>;

pub struct Op { name: String, n: usize, adv: Option<usize>, once: bool }
pub struct Program {
    pub text: String,
    pub l: usize,
    pub zeroed: bool,
    pub worker: bool,
    pub latest_only: bool,
    pub asy: bool,
    /// before the threads start: rounds of one item each, items left in the buffer, how many of them the worker released
    pub before: [usize; 3],
    pub ops: [Vec<Op>; 3],
    /// the thread whose accesses are counted while others get in between
    pub victim: usize,
    /// order in which the main thread drops what is left
    pub drops: String,
}

impl Program {
    pub fn parse(text: &str) -> Self {
        let mut p = Program { text: text.into(), l: 2, zeroed: false, worker: false, latest_only: false, asy: false,
            before: [0; 3], ops: [vec![], vec![], vec![]], victim: 0, drops: "PWC".into() };
        for f in text.split(';') {
            let (k, v) = f.split_once('=').expect("HARNESS: program");
            match k {
                "L" => p.l = v.parse().unwrap(),
                "z" => p.zeroed = v == "1",
                "w" => p.worker = v == "1",
                "m" => p.latest_only = v == "sc",
                "as" => p.asy = v == "1",
                "V" => p.victim = v.parse().unwrap(),
                "O" | "I" | "J" => p.before["OIJ".find(k).unwrap()] = v.parse().unwrap(),
                "D" => p.drops = v.into(),
                "P" | "W" | "C" => {
                    let i = "PWC".find(k).unwrap();
                    p.ops[i] = v.split(',').filter(|s| !s.is_empty()).map(|s| {
                        let (once, s) = match s.strip_prefix('?') { Some(s) => (true, s), None => (false, s) };
                        let (s, adv) = match s.split_once('.') { Some((s, a)) => (s, Some(a.parse().unwrap())), None => (s, None) };
                        let d = s.find(|c: char| c.is_ascii_digit()).unwrap_or(s.len());
                        Op { name: s[..d].into(), n: s[d..].parse().unwrap_or(1), adv, once }
                    }).collect();
                },
                _ => panic!("HARNESS: {f}"),
            }
        }
        p
    }
}

struct Cx { t: usize, role: char, next: u64, moved: usize, win: Win, at: usize }

struct Vals([u64; 40], usize);
impl std::fmt::Display for Vals {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("[")?;
        for (i, v) in self.0[..self.1].iter().enumerate() { if i > 0 { f.write_str(",")?; } write!(f, "{v}")?; }
        f.write_str("]")
    }
}
impl Vals {
    fn none() -> Self { Vals([0; 40], 0) }
    fn one(v: u64) -> Self { let mut x = Self::none(); x.push(v); x }
    fn of(s: &[Item]) -> Self { let mut x = Self::none(); s.iter().for_each(|i| x.push(i.tag())); x }
    fn push(&mut self, v: u64) { self.0[self.1] = v; self.1 += 1; }
}

impl Cx {
    fn b(&self, call: &str, n: usize, vals: &Vals) {
        let r = rt();
        r.begin_call();
        ev!(r, "[\"B\",{},\"{}\",\"{}\",{},{}]", self.t, self.role, call, n, vals);
    }
    fn e(&self, call: &str, ok: bool, cnt: usize, vals: &Vals, num: usize) {
        let r = rt();
        ev!(r, "[\"E\",{},\"{}\",\"{}\",{},{},{},{}]", self.t, self.role, call, ok as u8, cnt, vals, num);
    }
}

#[derive(Clone, Copy)]
struct Win { p: [*mut Item; 40], n: usize }
impl Win {
    fn of(a: &[Item], b: &[Item]) -> Self {
        let mut w = Win { p: [std::ptr::null_mut(); 40], n: 0 };
        for i in a.iter().chain(b) { if w.n < 40 { w.p[w.n] = i as *const _ as *mut _; w.n += 1; } }
        w
    }
    fn none() -> Self { Win::of(&[], &[]) }
    /// Uses `n` items, the first being `from`, as the role does; what was seen and what is there now.
    fn touch(&self, cx: &mut Cx, from: usize, n: usize) -> (Vals, Vals) {
        let (mut seen, mut now) = (Vals::none(), Vals::none());
        for p in &self.p[from..self.n.min(from + n)] {
            unsafe {
                match cx.role {
                    'P' => { p.write(Item::new(cx.next)); now.push(cx.next); cx.next += 1; },
                    'W' => {
                        let v = (**p).tag();
                        seen.push(v);
                        p.write(Item::new(v + 100));
                        now.push(v + 100);
                    },
                    _ => { let v = (**p).tag(); seen.push(v); now.push(v); },
                }
            }
        }
        (seen, now)
    }
}

// ------------------------------------------------------------------------------------------------ awaiting

unsafe fn w_clone(p: *const ()) -> RawWaker { RawWaker::new(p, &VT) }
unsafe fn w_wake(p: *const ()) { rt().wake(p as usize) }
unsafe fn w_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);

/// `once`: polled a single time, and dropped if it is pending.
fn block<O>(once: bool, f: impl Future<Output = Option<O>>) -> Option<O> {
    let mut f = pin!(f);
    let t = rt().cur;
    loop {
        // a waker of its own for each task
        let w = unsafe { Waker::from_raw(RawWaker::new(t as *const (), &VT)) };
        rt().polling();
        ev!(rt(), "[\"b\",{}]", t);
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => { rt().polled(); return Some(x.expect("a future resolved without a result")) },
            Poll::Pending if once => { rt().polled(); return None },
            Poll::Pending => rt().park(),
        }
    }
}

// ------------------------------------------------------------------------------------------------ calls

pub enum It<S: MRBIterator<Item = Item>, A: AsyncIterator> { Sync(S), Det(Detached<S>), Asy(A), ADet(AsyncDetached<A, B>), Gone }

macro_rules! each { ($it:expr, $i:ident => $e:expr) => { match $it {
    It::Sync($i) => $e, It::Det($i) => $e, It::Asy($i) => $e, It::ADet(_) => panic!("HARNESS: detached"), It::Gone => panic!("HARNESS: dropped before"),
} } }

trait Role { const R: char; fn reset(&mut self); }
impl Role for P { const R: char = 'P'; fn reset(&mut self) { unreachable!() } }
impl Role for W { const R: char = 'W'; fn reset(&mut self) { self.reset_index() } }
impl<const K: bool> Role for C<K> { const R: char = 'C'; fn reset(&mut self) { self.reset_index() } }

type Two = (*const [Item], *const [Item]);
#[cfg(not(feature = "vmem"))]
fn two(x: (&mut [Item], &mut [Item])) -> Two { (x.0, x.1) }
#[cfg(not(feature = "vmem"))]
fn two_r(x: (&[Item], &[Item])) -> Two { (x.0, x.1) }
#[cfg(feature = "vmem")]
fn two(x: &mut [Item]) -> Two { (x, &[]) }
#[cfg(feature = "vmem")]
fn two_r(x: &[Item]) -> Two { (x, &[]) }
fn one(x: &mut Item) -> Two { (std::slice::from_ref(x), &[]) }
fn one_r(x: &Item) -> Two { (std::slice::from_ref(x), &[]) }

macro_rules! look { ($it:expr, $op:expr) => { match $op.name.as_str() {
    "win" => Some($it.get_workable().map(one)),
    "winE" => Some($it.get_workable_slice_exact($op.n).map(two)),
    "winA" => Some($it.get_workable_slice_avail().map(two)),
    "winM" => Some($it.get_workable_slice_multiple_of($op.n).map(two)),
    _ => None,
} } }

/// Calls every role has; `false`: not one of them.
fn common<S: MRBIterator<Item = Item> + Role, A: AsyncIterator<I = S, B = B>>(it: &mut It<S, A>, op: &Op, cx: &mut Cx,
    asy_look: impl Fn(&mut A, &Op) -> Option<Two>, sync_look: impl Fn(&mut S, &Op) -> Option<Option<Two>>) -> bool {
    let no = Vals::none();
    match op.name.as_str() {
        "drop" => {
            cx.b("drop", 0, &no);
            *it = It::Gone;
            cx.e("drop", true, 0, &no, 0);
        },
        "det" => {
            cx.moved = 0;
            cx.b("det", 0, &no);
            *it = match std::mem::replace(it, It::Gone) { It::Sync(s) => It::Det(s.detach()), It::Asy(a) => It::ADet(a.detach()), _ => panic!("HARNESS: det") };
            cx.e("det", true, 0, &no, 0);
        },
        "att" => {
            cx.b("att", 0, &no);
            *it = match std::mem::replace(it, It::Gone) { It::Det(s) => It::Sync(s.attach()), It::ADet(s) => It::Asy(s.attach()), _ => panic!("HARNESS: att") };
            cx.e("att", true, 0, &no, 0);
        },
        "sync" => {
            cx.b("sync", 0, &no);
            cx.moved = 0;
            match it { It::Det(s) => s.sync_index(), It::ADet(s) => s.sync_index(), _ => panic!("HARNESS: sync") };
            cx.e("sync", true, 0, &no, 0);
        },
        "back" => {
            // at most to where it was published
            let n = op.n.min(cx.moved);
            if n == 0 { return true }
            cx.moved -= n;
            if cx.at < n { cx.win = Win::none() } else { cx.at -= n }
            cx.b("back", n, &no);
            match it { It::Det(s) => unsafe { s.go_back(n) }, It::ADet(s) => unsafe { s.go_back(n) }, _ => panic!("HARNESS: back") };
            cx.e("back", true, n, &no, 0);
        },
        "reset" => {
            cx.moved = 0;
            cx.win = Win::none();
            cx.b("reset", 0, &no);
            match it { It::Sync(s) => s.reset(), It::Asy(a) => a.inner_mut().reset(), It::Det(d) => d.reset_index(), It::ADet(_) | It::Gone => panic!("HARNESS: reset") };
            let i = each!(it, i => i.index());
            cx.e("reset", true, 0, &no, i);
        },
        "wait" => {
            cx.b("wait", op.n, &no);
            match it { It::Sync(i) => i.wait_for(op.n), It::Det(i) => i.wait_for(op.n), It::Asy(i) => i.inner_mut().wait_for(op.n), It::ADet(_) | It::Gone => panic!("HARNESS: wait") }
            cx.e("wait", true, 0, &no, 0);
        },
        "go" => {
            // further into the window
            let n = if cx.win.n < cx.at { 0 } else { op.n.min(cx.win.n - cx.at) };
            if n == 0 { return true }
            let (w, at) = (cx.win, cx.at);
            let (seen, now) = w.touch(cx, at, n);
            ev!(rt(), "[\"V\",{},\"{}\",{}]", cx.t, cx.role, seen);
            cx.at += n;
            cx.moved += n;
            cx.b("adv", n, &now);
            match it {
                It::Sync(s) => unsafe { s.advance(n) }, It::Det(s) => unsafe { s.advance(n) },
                It::Asy(s) => unsafe { s.advance(n) }, It::ADet(s) => unsafe { s.advance(n) }, It::Gone => panic!("HARNESS: go"),
            }
            cx.e("adv", true, n, &no, 0);
        },
        "avail" => {
            cx.b("avail", 0, &no);
            let a = each!(it, i => i.available());
            cx.e("avail", true, 0, &no, a);
        },
        "index" => {
            cx.b("index", 0, &no);
            let a = each!(it, i => i.index());
            cx.e("index", true, 0, &no, a);
        },
        "aliveP" | "aliveW" | "aliveC" => {
            let k = "PWC".find(&op.name[5..]).unwrap() + 1;
            cx.b("alive", k, &no);
            let a = each!(it, i => match k { 1 => i.is_prod_alive(), 2 => i.is_work_alive(), _ => i.is_cons_alive() });
            cx.e("alive", true, k, &no, a as usize);
        },
        "seeP" | "seeW" | "seeC" => {
            let k = "PWC".find(&op.name[3..]).unwrap() + 1;
            cx.b("see", k, &no);
            let a = each!(it, i => match k { 1 => i.prod_index(), 2 => i.work_index(), _ => i.cons_index() });
            cx.e("see", true, k, &no, a);
        },
        n @ ("win" | "winE" | "winA" | "winM" | "peek" | "peekE" | "peekA" | "ptr") => {
            let kind = match n { "winA" | "peekA" => "lookA", "winM" => "lookM", _ => "look" };
            cx.b(kind, op.n, &no);
            let w: Option<Two> = match it {
                It::Sync(s) => look!(s, op).or_else(|| sync_look(s, op)).expect("HARNESS: call"),
                It::Det(s) => look!(s, op).expect("HARNESS: call"),
                It::Asy(a) => asy_look(a, op),
                It::ADet(_) | It::Gone => panic!("HARNESS: look"),
            };
            let Some(w) = w else { cx.e(kind, false, 0, &no, 0); return true };
            let w = unsafe { Win::of(&*w.0, &*w.1) };
            cx.e(kind, true, w.n, &no, 0);
            let k = op.adv.unwrap_or(w.n).min(w.n);
            (cx.win, cx.at) = (w, k);
            if k == 0 && cx.role == 'P' { return true }
            // looked at, but not moved past: the worker does not edit
            let (seen, now) = if k == 0 { let r = cx.role; cx.role = 'C'; let x = w.touch(cx, 0, w.n); cx.role = r; x } else { w.touch(cx, 0, k) };
            ev!(rt(), "[\"V\",{},\"{}\",{}]", cx.t, cx.role, seen);
            if k > 0 {
                cx.b("adv", k, &now);
                match it {
                    It::Sync(s) => unsafe { s.advance(k) },
                    It::Det(s) => unsafe { cx.moved += k; s.advance(k) },
                    It::Asy(s) => unsafe { s.advance(k) },
                    It::ADet(_) | It::Gone => unreachable!(),
                }
                cx.e("adv", true, k, &no, 0);
            }
        },
        _ => return false,
    }
    true
}

fn prod(it: &mut It<P, AP>, op: &Op, cx: &mut Cx) {
    let asy = |a: &mut AP, op: &Op| -> Option<Two> { match op.name.as_str() {
        "win" if op.adv == Some(1) => block(op.once, unsafe { a.get_next_item_mut() }).map(one),
        "winE" if op.adv == Some(1) => block(op.once, unsafe { a.get_next_slices_mut(op.n) }).map(two),
        "win" => block(op.once, a.get_workable()).map(one),
        "winE" => block(op.once, a.get_workable_slice_exact(op.n)).map(two),
        "winA" => block(op.once, a.get_workable_slice_avail()).map(two),
        "winM" => block(op.once, a.get_workable_slice_multiple_of(op.n)).map(two),
        "ptr" => block(op.once, a.get_next_item_mut_init()).map(|p| one(unsafe { &mut *p })),
        _ => panic!("HARNESS: {}", op.name),
    } };
    let sync = |s: &mut P, op: &Op| match op.name.as_str() {
        "ptr" => Some(s.get_next_item_mut_init().map(|p| one(unsafe { &mut *p }))),
        _ => None,
    };
    if common(it, op, cx, asy, sync) { return }
    cx.win = Win::none();
    let mut src = [Item::new(cx.next); 4];
    let n = if op.name.contains('S') { op.n } else { 1 };
    for (k, s) in src[..n].iter_mut().enumerate() { *s = Item::new(cx.next + k as u64); }
    cx.b("push", n, &Vals::of(&src[..n]));
    let (ok, back) = match it {
        It::Sync(p) => match op.name.as_str() {
            "push" => match p.push(src[0]) { Ok(()) => (true, Vals::none()), Err(b) => (false, Vals::one(b.tag())) },
            "pushi" => match p.push_init(src[0]) { Ok(()) => (true, Vals::none()), Err(b) => (false, Vals::one(b.tag())) },
            "pushS" => (p.push_slice(&src[..n]).is_some(), Vals::none()),
            "pushSc" | "pushcS" => (p.push_slice_clone(&src[..n]).is_some(), Vals::none()),
            "pushiS" => (p.push_slice_init(&src[..n]).is_some(), Vals::none()),
            "pushciS" => (p.push_slice_clone_init(&src[..n]).is_some(), Vals::none()),
            x => panic!("HARNESS: {x}"),
        },
        It::Asy(p) => {
            let done = match op.name.as_str() {
                "push" => block(op.once, p.push(src[0])),
                "pushS" => block(op.once, p.push_slice(&src[..n])),
                "pushcS" => block(op.once, p.push_slice_clone(&src[..n])),
                x => panic!("HARNESS: {x}"),
            };
            (done.is_some(), Vals::none())
        },
        _ => panic!("HARNESS: push"),
    };
    if ok { cx.next += n as u64; }
    cx.e("push", ok, if ok { n } else { 0 }, &back, 0);
}

fn work(it: &mut It<W, AW>, op: &Op, cx: &mut Cx) {
    let asy = |a: &mut AW, op: &Op| -> Option<Two> { match op.name.as_str() {
        "win" => block(op.once, a.get_workable()).map(one),
        "winE" => block(op.once, a.get_workable_slice_exact(op.n)).map(two),
        "winA" => block(op.once, a.get_workable_slice_avail()).map(two),
        "winM" => block(op.once, a.get_workable_slice_multiple_of(op.n)).map(two),
        _ => panic!("HARNESS: {}", op.name),
    } };
    if !common(it, op, cx, asy, |_, _| None) { panic!("HARNESS: {}", op.name) }
}

fn cons<const K: bool>(it: &mut It<C<K>, AC<K>>, op: &Op, cx: &mut Cx) {
    let asy = |a: &mut AC<K>, op: &Op| -> Option<Two> { match op.name.as_str() {
        "win" => block(op.once, a.get_workable()).map(one),
        "winE" => block(op.once, a.get_workable_slice_exact(op.n)).map(two),
        "winA" => block(op.once, a.get_workable_slice_avail()).map(two),
        "winM" => block(op.once, a.get_workable_slice_multiple_of(op.n)).map(two),
        "peek" => block(op.once, a.peek_ref()).map(one_r),
        "peekE" => block(op.once, a.peek_slice(op.n)).map(two_r),
        "peekA" => block(op.once, a.peek_available()).map(two_r),
        _ => panic!("HARNESS: {}", op.name),
    } };
    let sync = |s: &mut C<K>, op: &Op| match op.name.as_str() {
        "peek" => Some(s.peek_ref().map(one_r)),
        "peekE" => Some(s.peek_slice(op.n).map(two_r)),
        "peekA" => Some(s.peek_available().map(two_r)),
        _ => None,
    };
    if common(it, op, cx, asy, sync) { return }
    cx.win = Win::none();
    let n = if op.name.contains('S') { op.n } else { 1 };
    let mut dst = [Item::new(7); 4];
    cx.b("take", n, &Vals::none());
    let mut val = |v: Option<Item>| v.map(|v| dst[0] = v).is_some();
    let ok = match it {
        It::Sync(c) => match op.name.as_str() {
            "pop" => val(c.pop()),
            "move" => val(unsafe { c.pop_move() }),
            "copy" => c.copy_item(&mut dst[0]).is_some(),
            "clone" => c.clone_item(&mut dst[0]).is_some(),
            "takeS" => c.copy_slice(&mut dst[..n]).is_some(),
            "cloneS" => c.clone_slice(&mut dst[..n]).is_some(),
            x => panic!("HARNESS: {x}"),
        },
        It::Asy(c) => {
            match op.name.as_str() {
                "pop" => val(block(op.once, c.pop())),
                "move" => val(block(op.once, unsafe { c.pop_move() })),
                "copy" => block(op.once, c.copy_item(&mut dst[0])).is_some(),
                "clone" => block(op.once, c.clone_item(&mut dst[0])).is_some(),
                "takeS" => block(op.once, c.copy_slice(&mut dst[..n])).is_some(),
                "cloneS" => block(op.once, c.clone_slice(&mut dst[..n])).is_some(),
                x => panic!("HARNESS: {x}"),
            }
        },
        _ => panic!("HARNESS: take"),
    };
    cx.e("take", ok, if ok { n } else { 0 }, &if ok { Vals::of(&dst[..n]) } else { Vals::none() }, 0);
}

// ------------------------------------------------------------------------------------------------ a run

fn op(name: &str, n: usize) -> Op { Op { name: name.into(), n, adv: None, once: false } }

fn settle<S: MRBIterator<Item = Item> + Role, A: AsyncIterator<I = S, B = B>>(it: &mut It<S, A>, cx: &mut Cx) {
    if matches!(it, It::Det(_) | It::ADet(_)) { common(it, &op("att", 1), cx, |_, _| None, |_, _| None); }
    let i = std::mem::replace(it, It::Gone);
    *it = match i {
        It::Asy(a) => It::Sync(a.into_sync()),
        x => x,
    };
}

fn len_of(it: &It<P, AP>) -> usize { match it { It::Sync(s) => s.buf_len(), It::Asy(a) => a.inner().buf_len(), _ => 0 } }

fn go<const K: bool>(p: &Program, plan: &mut Plan, mut ip: It<P, AP>, mut iw: It<W, AW>, mut ic: It<C<K>, AC<K>>) -> End {
    let r = rt();
    if cfg!(feature = "vmem") && len_of(&ip) != p.l { return End::Skip }
    let cx = |t, role, next| Cx { t, role, next, moved: 0, win: Win::none(), at: 0 };
    let mut cxs = [cx(1, 'P', 1), cx(2, 'W', 0), cx(3, 'C', 0)];
    if p.before != [0; 3] {
        for c in &mut cxs { c.t = 0; }
        r.on = true;
        let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let [rounds, items, worked] = p.before;
            let (push, pop) = if p.zeroed { (op("pushi", 1), op("move", 1)) } else { (op("push", 1), op("pop", 1)) };
            for _ in 0..rounds {
                prod(&mut ip, &push, &mut cxs[0]);
                if p.worker { work(&mut iw, &op("win", 1), &mut cxs[1]); }
                cons(&mut ic, &pop, &mut cxs[2]);
            }
            for _ in 0..items { prod(&mut ip, &push, &mut cxs[0]); }
            for _ in 0..worked { work(&mut iw, &op("win", 1), &mut cxs[1]); }
        }));
        r.on = false;
        for (i, c) in cxs.iter_mut().enumerate() { c.t = i + 1; }
        if made.is_err() {
            if crate::panic_peek().contains("HARNESS") { std::panic::resume_unwind(Box::new(())) }
            ev!(r, "[\"A\",0]");
            r.suspicious = true;
            let _ = (ManuallyDrop::new(ip), ManuallyDrop::new(iw), ManuallyDrop::new(ic));
            return End::Limit;
        }
        ev!(r, "[\"T\"]");
    }
    let (pp, pw, pc): (*mut _, *mut _, *mut _) = (&mut ip, &mut iw, &mut ic);
    let cx: *mut Cx = cxs.as_mut_ptr();
    if !p.ops[0].is_empty() {
        r.spawn(1, Box::new(move || for o in &p.ops[0] { prod(unsafe { &mut *pp }, o, unsafe { &mut *cx }) }));
    }
    if p.worker && !p.ops[1].is_empty() {
        r.spawn(2, Box::new(move || for o in &p.ops[1] { work(unsafe { &mut *pw }, o, unsafe { &mut *cx.add(1) }) }));
    }
    if !p.ops[2].is_empty() {
        r.spawn(3, Box::new(move || for o in &p.ops[2] { cons(unsafe { &mut *pc }, o, unsafe { &mut *cx.add(2) }) }));
    }
    let end = r.run(plan);
    if end != End::Done {
        let _ = (ManuallyDrop::new(ip), ManuallyDrop::new(iw), ManuallyDrop::new(ic));
        return end;
    }
    r.join();
    let rest = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for c in &mut cxs { c.t = 0; }
        let (c1, rest) = cxs.split_at_mut(1);
        let (c2, c3) = rest.split_at_mut(1);
        let (c1, c2, c3) = (&mut c1[0], &mut c2[0], &mut c3[0]);
        settle(&mut ip, c1);
        settle(&mut iw, c2);
        settle(&mut ic, c3);
        if !matches!(ip, It::Gone) { prod(&mut ip, &op("avail", 1), c1); }
        if !matches!(iw, It::Gone) { work(&mut iw, &op("avail", 1), c2); }
        if !matches!(ic, It::Gone) { cons(&mut ic, &op("avail", 1), c3); }
        // everything still in the buffer comes out
        if !matches!(iw, It::Gone) { for _ in 0..2 { work(&mut iw, &op("winA", 1), c2); } }
        if !matches!(ic, It::Gone) { for _ in 0..p.l { cons(&mut ic, &op("pop", 1), c3); } }
        if !matches!(ip, It::Gone) { prod(&mut ip, &op("avail", 1), c1); }
        ev!(r, "[\"D\"]");
        for d in p.drops.chars() {
            match d {
                'P' if !matches!(ip, It::Gone) => prod(&mut ip, &op("drop", 1), c1),
                'W' if !matches!(iw, It::Gone) => work(&mut iw, &op("drop", 1), c2),
                'C' if !matches!(ic, It::Gone) => cons(&mut ic, &op("drop", 1), c3),
                _ => {},
            }
        }
    }));
    r.on = false;
    if rest.is_err() {
        if crate::panic_peek().contains("HARNESS") { std::panic::resume_unwind(Box::new(())) }
        ev!(r, "[\"A\",0]");
        r.suspicious = true;
    }
    ev!(r, "[\"Z\"]");
    if mem::leaked() != 0 { r.suspicious = true; }
    End::Done
}

/// One execution: its trace, unless it adds nothing.
pub fn run(p: &Program, plan: &mut Plan) -> (End, bool) {
    Rt::install(p.latest_only, p.l);

    let buf = mem::watching(|| if p.zeroed { unsafe { B::new_zeroed(p.l) } } else { B::from((0..p.l).map(|i| Item::new(900 + i as u64)).collect::<Vec<_>>()) });

    macro_rules! start { ($its:expr, $k:literal, |$x:ident| $mk:expr) => { {
        let $x = mem::watching(|| $its);
        mem::arm(p.l);
        let (a, b, c) = $mk;
        go::<$k>(p, plan, a, b, c)
    } } }
    let end = match (p.worker, p.asy) {
        (true, false) => start!(buf.split_mut(), true, |x| (It::Sync(x.0), It::Sync(x.1), It::Sync(x.2))),
        (false, false) => start!(buf.split(), false, |x| (It::Sync(x.0), It::Gone, It::Sync(x.1))),
        (true, true) => start!(buf.split_mut_async(), true, |x| (It::Asy(x.0), It::Asy(x.1), It::Asy(x.2))),
        (false, true) => start!(buf.split_async(), false, |x| (It::Asy(x.0), It::Gone, It::Asy(x.1))),
    };
    let blocks = mem::w().n;
    mem::disarm();
    let r = rt();
    r.blocks = blocks;
    (end, r.suspicious)
}
