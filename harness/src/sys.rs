//! One real buffer with its iterators, driven call by call.

use crate::alloc;
use crate::graph::Call;
use crate::items::{BoxFut, Item, Tag, BAD};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncDetached, AsyncProdIter, AsyncWorkIter, ConsIter, Detached, ProdIter, WorkIter};
#[cfg(feature = "alloc")]
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};
use mutringbuf::{MRBIterator, MutRB, UnsafeSyncCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ctor { From, Default, Zeroed }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style { Sync, Async, Attach }

pub type Win = [(usize, usize); 2];

pub enum Res<T> {
    Refused,
    Done,
    Skip,
    Pending,
    Num(usize),
    Win(Win, bool),
    Ptr(usize),
    Val(T),
    Back(T),
    /// values taken into a buffer (granted?)
    Dst(Vec<T>, bool),
    /// values pushed from a buffer (granted?)
    Src(Vec<T>, bool),
}

pub trait ToWin { fn win(self) -> Win; }
impl<T> ToWin for (&mut [T], &mut [T]) {
    fn win(self) -> Win { [(self.0.as_ptr() as usize, self.0.len()), (self.1.as_ptr() as usize, self.1.len())] }
}
impl<T> ToWin for (&[T], &[T]) {
    fn win(self) -> Win { [(self.0.as_ptr() as usize, self.0.len()), (self.1.as_ptr() as usize, self.1.len())] }
}
impl<T> ToWin for &mut [T] { fn win(self) -> Win { [(self.as_ptr() as usize, self.len()), (0, 0)] } }
impl<T> ToWin for &[T] { fn win(self) -> Win { [(self.as_ptr() as usize, self.len()), (0, 0)] } }

fn mwin<T, S: ToWin>(s: Option<S>) -> Res<T> { s.map_or(Res::Refused, |s| Res::Win(s.win(), true)) }
fn rwin<T, S: ToWin>(s: Option<S>) -> Res<T> { s.map_or(Res::Refused, |s| Res::Win(s.win(), false)) }
fn mref<T>(s: Option<&mut T>) -> Res<T> { s.map_or(Res::Refused, |s| Res::Win([(s as *mut T as usize, 1), (0, 0)], true)) }
fn rref<T>(s: Option<&T>) -> Res<T> { s.map_or(Res::Refused, |s| Res::Win([(s as *const T as usize, 1), (0, 0)], false)) }
fn val<T>(v: Option<T>) -> Res<T> { v.map_or(Res::Refused, Res::Val) }

/// What the harness keeps for a pending future.
pub struct Bufs<T> {
    pub src: Vec<T>,
    pub dst: Vec<T>,
    pub item: Option<T>,
}
pub const DST: Tag = 252;

/// A call, with what has to be known to perform it.
pub struct Args<'a> {
    pub call: Call,
    pub n: usize,
    /// selects among equivalent forms
    pub fl: usize,
    pub tags: &'a [Tag],
    /// new tags for the elements of a mutable window (0: left alone)
    pub edits: &'a [Tag],
    /// the slot about to be written through a pointer holds a value
    pub occupied: bool,
    pub idx: usize,
    pub avail: usize,
    pub len: usize,
}

fn common<T: Item, I: MRBIterator<Item = T>>(i: &mut I, a: &Args) -> Res<T> {
    match a.call {
        Call::Avail => Res::Num(i.available()),
        Call::Wait => { i.wait_for(a.n); Res::Done }
        Call::Win1 => mref(i.get_workable()),
        Call::WinN => mwin(i.get_workable_slice_exact(a.n)),
        Call::WinA => mwin(i.get_workable_slice_avail()),
        Call::WinM => mwin(i.get_workable_slice_multiple_of(a.n)),
        Call::Adv => { unsafe { i.advance(a.n) }; Res::Done }
        _ => unreachable!("{:?}", a.call),
    }
}

pub trait Role<T: Item>: MRBIterator<Item = T> + Sized + 'static {
    type B: MutRB<Item = T> + 'static;
    type A: AsyncIterator<I = Self, B = Self::B> + 'static;
    fn reset(&mut self);
    fn a_reset(a: &mut Self::A) { a.inner_mut().reset() }
    fn call(&mut self, a: &Args) -> Res<T>;
    /// The future of the call, if there is an asynchronous form.
    fn fut(it: &'static mut Self::A, call: Call, n: usize, fl: usize, b: &'static mut Bufs<T>) -> Option<BoxFut<'static, Res<T>>>;
}

macro_rules! common_fut { ($it:ident, $call:expr, $n:expr, $or:expr) => {
    match $call {
        Call::Win1 => Some(Box::pin(async move { $it.get_workable().await.map(|x| mref(Some(x))) })),
        Call::WinN => Some(Box::pin(async move { $it.get_workable_slice_exact($n).await.map(|x| mwin(Some(x))) })),
        Call::WinA => Some(Box::pin(async move { $it.get_workable_slice_avail().await.map(|x| mwin(Some(x))) })),
        Call::WinM => Some(Box::pin(async move { $it.get_workable_slice_multiple_of($n).await.map(|x| mwin(Some(x))) })),
        _ => $or,
    }
} }

impl<T: Item, B: MutRB<Item = T> + 'static> Role<T> for ProdIter<'static, B> {
    type B = B;
    type A = AsyncProdIter<'static, B>;
    fn reset(&mut self) { unreachable!() }
    fn call(&mut self, a: &Args) -> Res<T> {
        match a.call {
            Call::Win1 if a.fl & 1 == 1 => mref(unsafe { self.get_next_item_mut() }),
            Call::WinN if a.fl & 1 == 1 => mwin(unsafe { self.get_next_slices_mut(a.n) }),
            Call::Push | Call::PushI => {
                let v = T::make(a.tags[0]);
                match if a.call == Call::Push { self.push(v) } else { self.push_init(v) } {
                    Ok(()) => Res::Done,
                    Err(v) => Res::Back(v),
                }
            }
            Call::PushS | Call::PushSI => {
                let src: Vec<T> = a.tags[..a.n].iter().map(|t| T::make(*t)).collect();
                let plain = a.call == Call::PushS;
                let r = match (plain, T::COPY && a.fl & 1 == 1) {
                    (true, true) => T::c_push_slice(self, &src),
                    (true, false) => self.push_slice_clone(&src),
                    (false, true) => T::c_push_slice_init(self, &src),
                    (false, false) => self.push_slice_clone_init(&src),
                };
                Res::Src(src, r.is_some())
            }
            Call::Ptr => match self.get_next_item_mut_init() {
                None => Res::Refused,
                Some(p) => Res::Ptr(p as usize),
            },
            _ => common(self, a),
        }
    }
    fn fut(it: &'static mut Self::A, call: Call, n: usize, fl: usize, b: &'static mut Bufs<T>) -> Option<BoxFut<'static, Res<T>>> {
        match call {
            Call::Win1 if fl & 1 == 1 => Some(Box::pin(async move { unsafe { it.get_next_item_mut() }.await.map(|x| mref(Some(x))) })),
            Call::WinN if fl & 1 == 1 => Some(Box::pin(async move { unsafe { it.get_next_slices_mut(n) }.await.map(|x| mwin(Some(x))) })),
            Call::Push => {
                let v = b.item.take().unwrap();
                Some(Box::pin(async move { it.push(v).await.map(|()| Res::Done) }))
            }
            Call::PushS if T::COPY && fl & 1 == 1 => Some(Box::pin(async move { T::a_push_slice(it, &b.src).await.map(|()| Res::Done) })),
            Call::PushS => Some(Box::pin(async move { it.push_slice_clone(&b.src).await.map(|()| Res::Done) })),
            Call::Ptr => Some(Box::pin(SendPtr(async move { it.get_next_item_mut_init().await.map(|p| Res::Ptr(p as usize)) }))),
            _ => common_fut!(it, call, n, None),
        }
    }
}

struct SendPtr<F>(F);
impl<F: std::future::Future> std::future::Future for SendPtr<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

impl<T: Item, B: MutRB<Item = T> + 'static> Role<T> for WorkIter<'static, B> {
    type B = B;
    type A = AsyncWorkIter<'static, B>;
    fn reset(&mut self) { self.reset_index() }
    fn a_reset(a: &mut Self::A) { a.reset_index() }
    fn call(&mut self, a: &Args) -> Res<T> {
        if a.call == Call::Reset { self.reset_index(); return Res::Done; }
        common(self, a)
    }
    fn fut(it: &'static mut Self::A, call: Call, n: usize, _: usize, _: &'static mut Bufs<T>) -> Option<BoxFut<'static, Res<T>>> {
        common_fut!(it, call, n, None)
    }
}

impl<T: Item, B: MutRB<Item = T> + 'static, const X: bool> Role<T> for ConsIter<'static, B, X> {
    type B = B;
    type A = AsyncConsIter<'static, B, X>;
    fn reset(&mut self) { self.reset_index() }
    fn a_reset(a: &mut Self::A) { a.reset_index() }
    fn call(&mut self, a: &Args) -> Res<T> {
        match a.call {
            Call::Reset => { self.reset_index(); Res::Done }
            Call::Peek1 => rref(self.peek_ref()),
            Call::PeekN => rwin(self.peek_slice(a.n)),
            Call::PeekA => rwin(self.peek_available()),
            Call::Take => {
                if T::COPY && a.fl % 3 == 0 { return val(self.pop()); }
                let mut dst = vec![T::make(DST)];
                let r = if T::COPY && a.fl % 3 == 1 { T::c_copy_item(self, &mut dst[0]) } else { self.clone_item(&mut dst[0]) };
                Res::Dst(dst, r.is_some())
            }
            Call::TakeS => {
                let mut dst: Vec<T> = (0..a.n).map(|_| T::make(DST)).collect();
                let r = if T::COPY && a.fl & 1 == 1 { T::c_copy_slice(self, &mut dst) } else { self.clone_slice(&mut dst) };
                Res::Dst(dst, r.is_some())
            }
            Call::Move => val(unsafe { self.pop_move() }),
            _ => common(self, a),
        }
    }
    fn fut(it: &'static mut Self::A, call: Call, n: usize, fl: usize, b: &'static mut Bufs<T>) -> Option<BoxFut<'static, Res<T>>> {
        match call {
            Call::Peek1 => Some(Box::pin(async move { it.peek_ref().await.map(|x| rref(Some(x))) })),
            Call::PeekN => Some(Box::pin(async move { it.peek_slice(n).await.map(|x| rwin(Some(x))) })),
            Call::PeekA => Some(Box::pin(async move { it.peek_available().await.map(|x| rwin(Some(x))) })),
            Call::Take if T::COPY && fl % 3 == 0 => Some(Box::pin(async move { it.pop().await.map(Res::Val) })),
            Call::Take if T::COPY && fl % 3 == 1 => Some(Box::pin(async move { T::a_copy_item(it, &mut b.dst[0]).await.map(|()| Res::Done) })),
            Call::Take => Some(Box::pin(async move { it.clone_item(&mut b.dst[0]).await.map(|()| Res::Done) })),
            Call::TakeS if T::COPY && fl & 1 == 1 => Some(Box::pin(async move { T::a_copy_slice(it, &mut b.dst).await.map(|()| Res::Done) })),
            Call::TakeS => Some(Box::pin(async move { it.clone_slice(&mut b.dst).await.map(|()| Res::Done) })),
            Call::Move => Some(Box::pin(async move { unsafe { it.pop_move() }.await.map(Res::Val) })),
            _ => common_fut!(it, call, n, None),
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct CountWaker(AtomicUsize);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
}

pub struct Pend<T> {
    fut: BoxFut<'static, Res<T>>,
    bufs: Box<Bufs<T>>,
    call: Call,
    holds_item: bool,
    src_tags: Vec<Tag>,
    /// of the last poll, if that was pending
    waker: Option<Arc<CountWaker>>,
}

impl<T: Item> Pend<T> {
    fn new<R: Role<T>>(it: &mut R::A, call: Call, n: usize, fl: usize, tags: &[Tag]) -> Option<Self> {
        let mut bufs = Box::new(Bufs { src: vec![], dst: vec![], item: None });
        let mut src_tags = vec![];
        match call {
            Call::Push => { bufs.item = Some(T::make(tags[0])); src_tags.push(tags[0]) }
            Call::PushS => { bufs.src = tags[..n].iter().map(|t| T::make(*t)).collect(); src_tags = tags[..n].to_vec() }
            Call::Take if !(T::COPY && fl % 3 == 0) => bufs.dst.push(T::make(DST)),
            Call::TakeS => bufs.dst = (0..n).map(|_| T::make(DST)).collect(),
            _ => (),
        }
        // The future and what it borrows are kept, and dropped, in this order.
        let it: &'static mut R::A = unsafe { &mut *(it as *mut R::A) };
        let b: &'static mut Bufs<T> = unsafe { &mut *(&mut *bufs as *mut Bufs<T>) };
        let fut = R::fut(it, call, n, fl, b)?;
        Some(Pend { fut, bufs, call, holds_item: call == Call::Push, src_tags, waker: None })
    }
    /// Values held for the future.
    fn held(&self) -> usize {
        self.holds_item as usize + self.bufs.src.len() + self.bufs.dst.len()
    }
    fn poll(&mut self) -> Res<T> {
        let count = Arc::new(CountWaker(AtomicUsize::new(0)));
        let waker = Waker::from(count.clone());
        let mut cx = Context::from_waker(&waker);
        self.waker = Some(count);
        match self.fut.as_mut().poll(&mut cx) {
            Poll::Pending => Res::Pending,
            Poll::Ready(None) => panic!("OBS: future resolved to None"),
            Poll::Ready(Some(r)) => { self.holds_item = false; r }
        }
    }
    /// Result of a completed or given up future, buffers included.
    fn finish(self, r: Res<T>) -> Res<T> {
        let ok = !matches!(r, Res::Pending);
        let Pend { fut, bufs, call, .. } = self;
        drop(fut);
        let bufs = *bufs;
        match call {
            Call::PushS => Res::Src(bufs.src, ok),
            Call::Take | Call::TakeS if !matches!(r, Res::Val(_)) && !bufs.dst.is_empty() => Res::Dst(bufs.dst, ok),
            _ if !ok => Res::Refused,
            _ => r,
        }
    }
}

pub enum Slot<T: Item, R: Role<T>> {
    Gone,
    Plain(R),
    Async(Box<R::A>),
    Det(Detached<R>),
    ADet(AsyncDetached<R::A, R::B>),
    Fut(Pend<T>, Box<R::A>),
}

pub struct View {
    /// own index, when visible
    pub index: usize,
    pub published: [usize; 3],
    pub alive: [bool; 3],
    pub len: usize,
}

impl<T: Item, R: Role<T>> Slot<T, R> {
    fn take(&mut self) -> Self { std::mem::replace(self, Slot::Gone) }

    fn convert(&mut self, to_async: bool) {
        *self = match self.take() {
            Slot::Plain(r) if to_async => Slot::Async(Box::new(R::A::from_sync(r))),
            Slot::Async(b) if !to_async => Slot::Plain((*b).into_sync()),
            s => s,
        };
    }

    pub fn exec(&mut self, a: &Args, style: Style) -> Res<T> {
        match a.call {
            Call::Drop => { *self = Slot::Gone; return Res::Done; }
            Call::Detach => {
                *self = match self.take() {
                    Slot::Plain(r) => Slot::Det(r.detach()),
                    Slot::Async(b) => Slot::ADet((*b).detach()),
                    _ => unreachable!(),
                };
                return Res::Done;
            }
            Call::Attach => {
                *self = match self.take() {
                    Slot::Det(d) => Slot::Plain(d.attach()),
                    Slot::ADet(d) => Slot::Async(Box::new(d.attach())),
                    _ => unreachable!(),
                };
                return Res::Done;
            }
            Call::FNew(f) => {
                let Slot::Async(mut b) = self.take() else { unreachable!() };
                let p = Pend::new::<R>(&mut b, f.call(), a.n, a.fl, a.tags).unwrap();
                *self = Slot::Fut(p, b);
                return Res::Done;
            }
            Call::FPoll => {
                let Slot::Fut(mut p, b) = self.take() else { unreachable!() };
                let r = p.poll();
                if let Res::Pending = r {
                    let kept = p.bufs.dst.iter().all(|d| T::tag_at(d) == DST)
                        && (p.bufs.src.is_empty() || p.bufs.src.iter().zip(&p.src_tags).all(|(s, t)| T::tag_at(s) == *t));
                    *self = Slot::Fut(p, b);
                    assert!(kept, "OBS: a pending poll touched the buffers of the call");
                    return Res::Pending;
                }
                let r = p.finish(r);
                *self = Slot::Async(b);
                return r;
            }
            Call::FDrop => {
                let Slot::Fut(p, b) = self.take() else { unreachable!() };
                let r = p.finish(Res::Pending);
                *self = Slot::Async(b);
                return match r { Res::Src(s, _) => Res::Src(s, false), Res::Dst(d, _) => Res::Dst(d, false), _ => Res::Refused };
            }
            _ => (),
        }
        match self {
            Slot::Plain(r) => {
                if style == Style::Attach {
                    // The detached form of the call, if there is one, otherwise around it
                    let Slot::Plain(r) = self.take() else { unreachable!() };
                    let mut d = r.detach();
                    let at_detached = match a.call {
                        Call::Avail | Call::Wait | Call::Win1 | Call::WinN | Call::WinA | Call::WinM | Call::Adv | Call::Reset => a.fl & 2 == 0,
                        _ => false,
                    };
                    if at_detached {
                        let res = det_call(&mut d, a);
                        *self = Slot::Plain(d.attach());
                        return res;
                    }
                    let mut r = d.attach();
                    let res = r.call(a);
                    *self = Slot::Plain(if a.fl & 4 == 0 { r.detach().attach() } else { r });
                    return res;
                }
                r.call(a)
            }
            Slot::Async(b) => {
                if a.call == Call::Reset { R::a_reset(b); return Res::Done; }
                if a.call == Call::Adv && a.fl & 1 == 1 { unsafe { b.advance(a.n) }; return Res::Done; }
                if a.call == Call::Avail && a.fl & 1 == 1 { return Res::Num(b.available()); }
                match a.fl % 8 {
                    0 => b.inner_mut().call(a),
                    1 => {
                        let Slot::Async(b) = self.take() else { unreachable!() };
                        let mut r = (*b).into_sync();
                        let res = r.call(a);
                        *self = Slot::Async(Box::new(R::A::from_sync(r)));
                        res
                    }
                    2 => {
                        let Slot::Async(b) = self.take() else { unreachable!() };
                        let mut b = Box::new((*b).detach().attach());
                        let res = b.inner_mut().call(a);
                        *self = Slot::Async(b);
                        res
                    }
                    _ => match Pend::new::<R>(b, a.call, a.n, a.fl / 8, a.tags) {
                        None => b.inner_mut().call(a),
                        Some(mut p) => {
                            let r = p.poll();
                            p.finish(r)
                        }
                    },
                }
            }
            Slot::Det(d) => det_call(d, a),
            Slot::ADet(d) => match a.call {
                Call::Sync => { d.sync_index(); Res::Done }
                Call::Back => { unsafe { d.go_back(a.n) }; Res::Done }
                Call::Adv => { unsafe { d.advance(a.n) }; Res::Done }
                Call::Reset => { unsafe { d.advance(a.avail) }; Res::Done }
                Call::Set => {
                    let fwd = (a.n + a.len - a.idx) % a.len;
                    unsafe { if fwd <= a.avail { d.advance(fwd) } else { d.go_back(a.len - fwd) } }
                    Res::Done
                }
                _ => Res::Skip,
            },
            _ => unreachable!("{:?}", a.call),
        }
    }

    /// Was the task of the future woken since the last poll?
    pub fn woken(&self) -> Option<bool> {
        if let Slot::Fut(p, _) = self { p.waker.as_ref().map(|w| w.0.load(Ordering::SeqCst) > 0) } else { None }
    }

    pub fn held(&self) -> usize { if let Slot::Fut(p, _) = self { p.held() } else { 0 } }

    pub fn view(&self) -> Option<View> {
        macro_rules! v { ($i:expr) => {
            Some(View { index: $i.index(), published: [$i.prod_index(), $i.work_index(), $i.cons_index()],
                        alive: [$i.is_prod_alive(), $i.is_work_alive(), $i.is_cons_alive()], len: 0 })
        } }
        match self {
            Slot::Plain(r) => v!(r).map(|mut v| { v.len = r.buf_len(); v }),
            Slot::Async(b) => v!(b).map(|mut v| { v.len = b.inner().buf_len(); v }),
            Slot::Det(d) => v!(d).map(|mut v| { v.len = d.buf_len(); v }),
            _ => None,
        }
    }

    pub fn available(&mut self) -> Option<usize> {
        match self {
            Slot::Plain(r) => Some(r.available()),
            Slot::Async(b) => Some(b.available()),
            Slot::Det(d) => Some(d.available()),
            _ => None,
        }
    }
}

fn det_call<T: Item, R: Role<T>>(d: &mut Detached<R>, a: &Args) -> Res<T> {
    match a.call {
        Call::Avail => Res::Num(d.available()),
        Call::Wait => { d.wait_for(a.n); Res::Done }
        Call::Win1 => mref(d.get_workable()),
        Call::WinN => mwin(d.get_workable_slice_exact(a.n)),
        Call::WinA => mwin(d.get_workable_slice_avail()),
        Call::WinM => mwin(d.get_workable_slice_multiple_of(a.n)),
        Call::Adv => { unsafe { d.advance(a.n) }; Res::Done }
        Call::Reset => { d.reset_index(); Res::Done }
        Call::Sync => { d.sync_index(); Res::Done }
        Call::Back => { unsafe { d.go_back(a.n) }; Res::Done }
        Call::Set => { unsafe { d.set_index(a.n) }; Res::Done }
        _ => unreachable!("{:?}", a.call),
    }
}

// ---------------------------------------------------------------------------------------------
// Buffers

pub enum Holder<B> {
    Ready(B),
    Taken,
    /// on the "stack": a place the iterators borrow
    Place(*mut B),
}

type PS<T, B> = Slot<T, ProdIter<'static, B>>;
type WS<T, B> = Slot<T, WorkIter<'static, B>>;
type CS<T, B, const X: bool> = Slot<T, ConsIter<'static, B, X>>;

pub trait Buf<T: Item>: MutRB<Item = T> + Sized + 'static {
    const KIND: &'static str;
    const STACK: bool;
    const N: usize;
    fn build(len: usize, ctor: Ctor, vals: Vec<T>) -> Holder<Self>;
    fn split2(h: &mut Holder<Self>, a: bool) -> (PS<T, Self>, CS<T, Self, false>);
    fn split3(h: &mut Holder<Self>, a: bool) -> (PS<T, Self>, WS<T, Self>, CS<T, Self, true>);
}

fn plain2<T: Item, B: MutRB<Item = T> + 'static>((p, c): (ProdIter<'static, B>, ConsIter<'static, B, false>)) -> (PS<T, B>, CS<T, B, false>) {
    alloc::watch_end();
    (Slot::Plain(p), Slot::Plain(c))
}
fn plain3<T: Item, B: MutRB<Item = T> + 'static>((p, w, c): (ProdIter<'static, B>, WorkIter<'static, B>, ConsIter<'static, B, true>)) -> (PS<T, B>, WS<T, B>, CS<T, B, true>) {
    alloc::watch_end();
    (Slot::Plain(p), Slot::Plain(w), Slot::Plain(c))
}
fn async2<T: Item, B: MutRB<Item = T> + 'static>((p, c): (AsyncProdIter<'static, B>, AsyncConsIter<'static, B, false>)) -> (PS<T, B>, CS<T, B, false>) {
    alloc::watch_end();
    (Slot::Async(Box::new(p)), Slot::Async(Box::new(c)))
}
fn async3<T: Item, B: MutRB<Item = T> + 'static>((p, w, c): (AsyncProdIter<'static, B>, AsyncWorkIter<'static, B>, AsyncConsIter<'static, B, true>)) -> (PS<T, B>, WS<T, B>, CS<T, B, true>) {
    alloc::watch_end();
    (Slot::Async(Box::new(p)), Slot::Async(Box::new(w)), Slot::Async(Box::new(c)))
}

#[cfg(feature = "alloc")]
macro_rules! heap { ($B:ident, $kind:literal, |$b:ident| $a2:expr, $a3:expr) => {
    impl<T: Item> Buf<T> for $B<T> {
        const KIND: &'static str = $kind;
        const STACK: bool = false;
        const N: usize = 0;
        fn build(len: usize, ctor: Ctor, vals: Vec<T>) -> Holder<Self> {
            // a mirrored buffer rounds the length up
            let len = if cfg!(feature = "vmem") && !crate::small::small() { len - 1 - len % 89 } else { len };
            Holder::Ready(match ctor {
                Ctor::From => Self::from(vals),
                Ctor::Default => <$B<T>>::default(len),
                Ctor::Zeroed => unsafe { <$B<T>>::new_zeroed(len) },
            })
        }
        fn split2(h: &mut Holder<Self>, a: bool) -> (PS<T, Self>, CS<T, Self, false>) {
            let Holder::Ready($b) = std::mem::replace(h, Holder::Taken) else { unreachable!() };
            if a { $a2 } else { plain2(HeapSplit::split($b)) }
        }
        fn split3(h: &mut Holder<Self>, a: bool) -> (PS<T, Self>, WS<T, Self>, CS<T, Self, true>) {
            let Holder::Ready($b) = std::mem::replace(h, Holder::Taken) else { unreachable!() };
            if a { $a3 } else { plain3(HeapSplit::split_mut($b)) }
        }
    }
} }
#[cfg(feature = "alloc")]
heap!(ConcurrentHeapRB, "conc-heap", |b| async2(b.split_async()), async3(b.split_mut_async()));
#[cfg(feature = "alloc")]
heap!(LocalHeapRB, "local-heap", |b| plain2(HeapSplit::split(b)), plain3(HeapSplit::split_mut(b)));

#[cfg(not(feature = "vmem"))]
macro_rules! stack { ($B:ident, $kind:literal, |$h:ident, $b:ident| $a2:expr, $a3:expr) => {
    impl<T: Item, const N: usize> Buf<T> for $B<T, N> {
        const KIND: &'static str = $kind;
        const STACK: bool = true;
        const N: usize = N;
        fn build(_: usize, ctor: Ctor, vals: Vec<T>) -> Holder<Self> {
            Holder::Place(Box::into_raw(Box::new(match ctor {
                Ctor::From => Self::from(<[T; N]>::try_from(vals).ok().unwrap()),
                Ctor::Default => unreachable!(),
                Ctor::Zeroed => unsafe { <$B<T, N>>::new_zeroed() },
            })))
        }
        fn split2(h: &mut Holder<Self>, a: bool) -> (PS<T, Self>, CS<T, Self, false>) {
            let Holder::Place(p) = *h else { unreachable!() };
            if a { let ($h, $b) = (h, p); $a2 } else { plain2(StackSplit::split(unsafe { &mut *p })) }
        }
        fn split3(h: &mut Holder<Self>, a: bool) -> (PS<T, Self>, WS<T, Self>, CS<T, Self, true>) {
            let Holder::Place(p) = *h else { unreachable!() };
            if a { let ($h, $b) = (h, p); $a3 } else { plain3(StackSplit::split_mut(unsafe { &mut *p })) }
        }
    }
} }
#[cfg(all(not(feature = "vmem"), not(feature = "alloc")))]
stack!(ConcurrentStackRB, "conc-stack", |_h, b| async2(unsafe { &mut *b }.split_async()), async3(unsafe { &mut *b }.split_mut_async()));
// With `alloc`, the asynchronous splits move a stack buffer to the heap.
#[cfg(all(not(feature = "vmem"), feature = "alloc"))]
stack!(ConcurrentStackRB, "conc-stack", |h, b| { *h = Holder::Taken; async2(unsafe { Box::from_raw(b) }.split_async()) },
    { *h = Holder::Taken; async3(unsafe { Box::from_raw(b) }.split_mut_async()) });
#[cfg(not(feature = "vmem"))]
stack!(LocalStackRB, "local-stack", |_h, b| plain2(StackSplit::split(unsafe { &mut *b })), plain3(StackSplit::split_mut(unsafe { &mut *b })));

// ---------------------------------------------------------------------------------------------

pub struct Setup {
    pub len: usize,
    pub ctor: Ctor,
    pub style: Style,
    pub worker: bool,
    pub split_async: bool,
    /// tags of the initial contents
    pub tags: Vec<Tag>,
}

/// What a call showed.
#[derive(Default, Debug, Clone)]
pub struct Obs {
    pub ok: bool,
    pub skip: bool,
    pub num: Option<usize>,
    /// windows: (first slot, slots); slot -1: outside of the buffer or not on a slot boundary
    pub wins: Vec<(isize, usize)>,
    /// tags seen in the windows, or taken
    pub tags: Vec<Tag>,
    pub back: Option<Tag>,
    /// buffers of a slice call: as they have to be?
    pub src: Option<Vec<Tag>>,
    pub dst: Option<Vec<Tag>>,
    pub edited: bool,
}

pub trait Machine {
    fn exec(&mut self, role: usize, a: &Args) -> Obs;
    fn view(&self, role: usize) -> Option<View>;
    fn available(&mut self, role: usize) -> Option<usize>;
    fn held(&self) -> usize;
    fn woken(&self, role: usize) -> Option<bool>;
    fn slot(&self, i: usize) -> Tag;
    /// do both views of a mirrored buffer show the same?
    fn mirrored(&self) -> bool;
    /// pages of both views of a mirrored buffer: all, those that are mapped
    fn mapped(&self) -> (usize, usize);
    fn bytes(&self) -> Vec<u8>;
    fn base_known(&self) -> bool;
    fn is_stack(&self) -> bool;
    fn own(&self) -> bool;
    /// drops what is left, the buffer included
    fn release(&mut self);
    fn len(&self) -> usize;
}

pub struct Mach<T: Item, B: Buf<T>> {
    holder: Holder<B>,
    p: PS<T, B>,
    w: WS<T, B>,
    c2: CS<T, B, false>,
    c3: CS<T, B, true>,
    worker: bool,
    base: usize,
    len: usize,
    style: Style,
    split_async: bool,
}

impl<T: Item, B: Buf<T>> Mach<T, B> {
    fn split(&mut self, worker: bool) {
        self.worker = worker;
        let a = self.split_async;
        if worker {
            let (p, w, c) = B::split3(&mut self.holder, a);
            (self.p, self.w, self.c3) = (p, w, c);
        } else {
            let (p, c) = B::split2(&mut self.holder, a);
            (self.p, self.c2) = (p, c);
        }
        let a = self.style == Style::Async;
        self.p.convert(a);
        self.w.convert(a);
        self.c2.convert(a);
        self.c3.convert(a);
    }

    pub fn new(s: &Setup) -> Self {
        let offs = if B::STACK { stack_offsets::<T, B>(s.len) } else { vec![] };
        alloc::watch_begin();
        let mut vals: Vec<T> = Vec::with_capacity(s.len);
        alloc::watch_end();
        if s.ctor == Ctor::From { vals.extend(s.tags.iter().map(|t| T::make(*t))); }
        alloc::watch_resume();
        let holder = B::build(s.len, s.ctor, vals);
        let mut m = Mach {
            holder, p: Slot::Gone, w: Slot::Gone, c2: Slot::Gone, c3: Slot::Gone,
            worker: s.worker, base: 0, len: s.len, style: s.style, split_async: s.split_async,
        };
        m.split(s.worker);
        alloc::watch_end();
        alloc::watch_prune();
        // where the producer, which is at position 0, points to
        // (asked for only if it is needed: it looks at the other positions)
        let first = |m: &mut Self| match &mut m.p {
            Slot::Plain(p) if s.len > 1 => p.get_next_item_mut_init(),
            Slot::Async(a) if s.len > 1 => a.inner_mut().get_next_item_mut_init(),
            _ => None,
        }.map_or(0, |p| p as usize);
        let place = match &m.holder {
            Holder::Place(p) => Some(*p as usize),
            _ => {
                let (blocks, n) = alloc::watched();
                let want = if B::STACK { size_of::<B>() } else { s.len * size_of::<T>() };
                let mut it = blocks[..n].iter().filter(|b| b.size == want && b.ptr % align_of::<T>() == 0);
                match (it.next(), it.next()) { (Some(b), None) => Some(b.ptr), _ => None }
            }
        };
        m.base = match (place, &offs[..]) {
            (Some(p), []) => p,
            (Some(p), [off]) => p + off,
            (Some(p), offs) => {
                let first = first(&mut m);
                offs.iter().map(|o| p + o).find(|b| *b == first || first == 0).unwrap_or(p + offs[0])
            }
            (None, _) => first(&mut m),
        };
        m
    }

    fn obs(&mut self, r: Res<T>, a: &Args, role: usize) -> Obs {
        let mut o = Obs { ok: true, ..Obs::default() };
        let tags = |v: &[T]| v.iter().map(|x| T::tag_at(x)).collect::<Vec<_>>();
        match r {
            Res::Refused | Res::Pending => o.ok = false,
            Res::Done => (),
            Res::Skip => o.skip = true,
            Res::Num(n) => o.num = Some(n),
            Res::Val(v) => o.tags = tags(std::slice::from_ref(&v)),
            Res::Back(v) => { o.ok = false; o.back = Some(T::tag_at(&v)); }
            Res::Src(v, ok) => { o.ok = ok; o.src = Some(tags(&v)); }
            Res::Dst(v, ok) => {
                o.ok = ok;
                if ok { o.tags = tags(&v) } else { o.dst = Some(tags(&v)) }
            }
            Res::Ptr(p) => {
                o.wins = vec![self.locate(p, 1)];
                if o.wins[0].0 >= 0 {
                    let p = p as *mut T;
                    let occupied = if a.fl & 8 == 0 { a.occupied } else { !UnsafeSyncCell::<T>::check_zeroed(p) };
                    unsafe { if occupied { *p = T::make(a.tags[0]) } else { p.write(T::make(a.tags[0])) } }
                }
            }
            Res::Win(w, mutable) => {
                let _ = role;
                let mut k = 0;
                for (ptr, n) in w {
                    if n == 0 { continue; }
                    let at = self.locate(ptr, n);
                    o.wins.push(at);
                    if at.0 < 0 { continue; }
                    for i in 0..n {
                        let p = (ptr + i * size_of::<T>()) as *mut T;
                        o.tags.push(T::tag_at(p));
                        if mutable && a.edits.get(k).is_some_and(|t| *t != 0) && o.tags.last() != Some(&BAD) {
                            unsafe { (*p).edit(a.edits[k]) };
                            o.edited = true;
                        }
                        k += 1;
                    }
                }
                o.num = Some(w[0].1 + w[1].1);
            }
        }
        o
    }

    fn locate(&self, ptr: usize, n: usize) -> (isize, usize) {
        let size = size_of::<T>();
        if self.base == 0 || ptr < self.base || (ptr - self.base) % size != 0 { return (-1, n); }
        let off = (ptr - self.base) / size;
        let views = if cfg!(feature = "vmem") { 2 } else { 1 };
        if n > views * self.len || off > views * self.len - n { return (-1, n); }
        (off as isize, n)
    }
}

/// Where, within a stack buffer, its slots may be: wherever a copy of the initial contents is (padding may
/// hold another copy).
fn stack_offsets<T: Item, B: Buf<T>>(len: usize) -> Vec<usize> {
    let vals: Vec<T> = (0..len).map(|i| T::make(i as Tag + 101)).collect();
    let bytes = unsafe { std::slice::from_raw_parts(vals.as_ptr() as *const u8, len * size_of::<T>()) }.to_vec();
    let Holder::Place(p) = B::build(len, Ctor::From, vals) else { unreachable!() };
    let place = unsafe { std::slice::from_raw_parts(p as *const u8, size_of::<B>()) };
    let off = (0..=place.len() - bytes.len()).step_by(align_of::<T>()).filter(|o| place[*o..*o + bytes.len()] == bytes[..]).collect();
    drop(unsafe { Box::from_raw(p) });
    off
}

macro_rules! role { ($self:ident, $role:expr, |$s:ident| $e:expr) => {
    match $role {
        0 => { let $s = &$self.p; $e }
        1 => { let $s = &$self.w; $e }
        _ if $self.worker => { let $s = &$self.c3; $e }
        _ => { let $s = &$self.c2; $e }
    }
} }
macro_rules! role_mut { ($self:ident, $role:expr, |$s:ident| $e:expr) => {
    match $role {
        0 => { let $s = &mut $self.p; $e }
        1 => { let $s = &mut $self.w; $e }
        _ if $self.worker => { let $s = &mut $self.c3; $e }
        _ => { let $s = &mut $self.c2; $e }
    }
} }

impl<T: Item, B: Buf<T>> Machine for Mach<T, B> {
    fn exec(&mut self, role: usize, a: &Args) -> Obs {
        if role == 3 {
            self.split(a.call == Call::Split3);
            return Obs { ok: true, ..Obs::default() };
        }
        let style = self.style;
        let r = role_mut!(self, role, |s| s.exec(a, style));
        self.obs(r, a, role)
    }
    fn view(&self, role: usize) -> Option<View> { role!(self, role, |s| s.view()) }
    fn available(&mut self, role: usize) -> Option<usize> { role_mut!(self, role, |s| s.available()) }
    fn woken(&self, role: usize) -> Option<bool> { role!(self, role, |s| s.woken()) }
    fn held(&self) -> usize { self.p.held() + self.w.held() + self.c2.held() + self.c3.held() }
    fn slot(&self, i: usize) -> Tag { T::tag_at((self.base + i * size_of::<T>()) as *const T) }
    fn mirrored(&self) -> bool {
        let size = self.len * size_of::<T>();
        unsafe { std::slice::from_raw_parts(self.base as *const u8, size) == std::slice::from_raw_parts((self.base + size) as *const u8, size) }
    }
    fn mapped(&self) -> (usize, usize) {
        extern "C" { fn mincore(addr: *mut u8, len: usize, vec: *mut u8) -> i32; }
        if self.base == 0 { return (0, 0); }
        let pages = 2 * self.len * size_of::<T>() / 4096;
        let mut v = 0u8;
        (pages, (0..pages).filter(|i| unsafe { mincore((self.base + i * 4096) as *mut u8, 4096, &mut v) } == 0).count())
    }
    fn bytes(&self) -> Vec<u8> {
        if self.base == 0 { return vec![]; }
        unsafe { std::slice::from_raw_parts(self.base as *const u8, self.len * size_of::<T>()) }.to_vec()
    }
    fn base_known(&self) -> bool { self.base != 0 }
    fn is_stack(&self) -> bool { matches!(self.holder, Holder::Place(_)) }
    fn own(&self) -> bool { T::OWN }
    fn len(&self) -> usize { self.len }
    fn release(&mut self) {
        self.p = Slot::Gone;
        self.w = Slot::Gone;
        self.c2 = Slot::Gone;
        self.c3 = Slot::Gone;
        if let Holder::Place(p) = std::mem::replace(&mut self.holder, Holder::Taken) {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}
