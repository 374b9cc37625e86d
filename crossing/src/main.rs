//! Asks the compiler which handles of the crate are `Send` and `Sync`: one JSON row for each type.

use mutringbuf::iterators::async_iterators::MRBFuture;
use mutringbuf::iterators::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;

struct Ask<T>(PhantomData<T>);
// An inherent constant hides the one of the trait, where its bounds hold.
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T> No for Ask<T> {}
struct AskSend<T>(PhantomData<T>);
struct AskSync<T>(PhantomData<T>);
impl<T> No for AskSend<T> {}
impl<T> No for AskSync<T> {}
#[allow(dead_code)]
impl<T: Send> AskSend<T> { const SEND: bool = true; }
#[allow(dead_code)]
impl<T: Sync> AskSync<T> { const SYNC: bool = true; }

macro_rules! row { ($variant:literal, $storage:literal, $stage:literal, $wrap:literal, $item:literal, $t:ty) => {
    println!("{{\"variant\":\"{}\",\"storage\":\"{}\",\"stage\":\"{}\",\"wrap\":\"{}\",\"item\":\"{}\",\"send\":{},\"sync\":{}}}",
        $variant, $storage, $stage, $wrap, $item, <AskSend<$t>>::SEND, <AskSync<$t>>::SYNC);
} }

macro_rules! stage { ($v:literal, $s:literal, $i:literal, $st:literal, $b:ty, $t:ty, $sync:ty, $asy:ty) => {
    row!($v, $s, $st, "plain", $i, $sync);
    row!($v, $s, $st, "detached", $i, Detached<$sync>);
    row!($v, $s, $st, "async", $i, $asy);
    row!($v, $s, $st, "asyncdetached", $i, AsyncDetached<$asy, $b>);
    // a call in progress: by value, by reference, a window
    row!($v, $s, $st, "future", $i, MRBFuture<'static, $asy, (), &'static mut $t, true>);
    row!($v, $s, $st, "futureitem", $i, MRBFuture<'static, $asy, $t, (), false>);
    row!($v, $s, $st, "futureslice", $i, MRBFuture<'static, $asy, &'static [u8], (), true>);
} }

macro_rules! item { ($v:literal, $s:literal, $i:literal, $b:ty, $t:ty) => {
    stage!($v, $s, $i, "P", $b, $t, ProdIter<'static, $b>, AsyncProdIter<'static, $b>);
    stage!($v, $s, $i, "W", $b, $t, WorkIter<'static, $b>, AsyncWorkIter<'static, $b>);
    stage!($v, $s, $i, "C", $b, $t, ConsIter<'static, $b, false>, AsyncConsIter<'static, $b, false>);
    stage!($v, $s, $i, "CW", $b, $t, ConsIter<'static, $b, true>, AsyncConsIter<'static, $b, true>);
} }

macro_rules! buffer { ($v:literal, $s:literal, $b:ident $(, $n:literal)?) => {
    item!($v, $s, "both", mutringbuf::$b<u64 $(, $n)?>, u64);
    item!($v, $s, "both-own", mutringbuf::$b<Box<String> $(, $n)?>, Box<String>);
    item!($v, $s, "send", mutringbuf::$b<Cell<u64> $(, $n)?>, Cell<u64>);
    item!($v, $s, "sync", mutringbuf::$b<MutexGuard<'static, u64> $(, $n)?>, MutexGuard<'static, u64>);
    item!($v, $s, "none", mutringbuf::$b<Rc<u64> $(, $n)?>, Rc<u64>);
    item!($v, $s, "none-ptr", mutringbuf::$b<*mut u64 $(, $n)?>, *mut u64);
    item!($v, $s, "none-ref", mutringbuf::$b<&'static Cell<u64> $(, $n)?>, &'static Cell<u64>);
    item!($v, $s, "none-array", mutringbuf::$b<[Rc<u64>; 2] $(, $n)?>, [Rc<u64>; 2]);
} }

fn main() {
    // what is asked of known types
    assert!(<AskSend<u64>>::SEND && <AskSync<u64>>::SYNC && <AskSend<Cell<u64>>>::SEND && !<AskSync<Cell<u64>>>::SYNC);
    assert!(!<AskSend<MutexGuard<'static, u64>>>::SEND && <AskSync<MutexGuard<'static, u64>>>::SYNC && !<AskSend<Rc<u64>>>::SEND && !<AskSync<Rc<u64>>>::SYNC);
    assert!(!<Ask<u64>>::SEND && !<Ask<u64>>::SYNC);

    #[cfg(feature = "alloc")]
    buffer!("conc", "heap", ConcurrentHeapRB);
    #[cfg(feature = "alloc")]
    buffer!("local", "heap", LocalHeapRB);
    #[cfg(not(feature = "vmem"))]
    buffer!("conc", "stack", ConcurrentStackRB, 4);
    #[cfg(not(feature = "vmem"))]
    buffer!("local", "stack", LocalStackRB, 4);
}
