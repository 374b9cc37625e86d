//! Builds buffers of many lengths in all ways there are, splits them, and prints what is there:
//! one JSON row each, to be judged by Build.tla.

use crate::items::{Item, OwnBox};
#[cfg(feature = "alloc")]
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};
use mutringbuf::iterators::{ConsIter, ProdIter, WorkIter};
use mutringbuf::{MRBIterator, MutRB};
use std::panic::{catch_unwind, AssertUnwindSafe};

const BUILD: &str = if cfg!(feature = "vmem") { "vmem" } else if cfg!(feature = "alloc") { "std" } else { "noalloc" };

/// Item numbered k (repeating), and back
trait Num: Clone + 'static {
    const NAME: &'static str;
    const PERIOD: usize;
    fn make(k: usize) -> Self;
    fn num(&self) -> usize;
}
impl Num for u32 {
    const NAME: &'static str = "u32";
    const PERIOD: usize = 1 << 30;
    fn make(k: usize) -> Self { k as u32 }
    fn num(&self) -> usize { *self as usize }
}
impl Num for u8 {
    const NAME: &'static str = "u8";
    const PERIOD: usize = 251;
    fn make(k: usize) -> Self { (k % 251) as u8 }
    fn num(&self) -> usize { *self as usize }
}
impl Num for () {
    const NAME: &'static str = "unit";
    const PERIOD: usize = 1;
    fn make(_: usize) -> Self {}
    fn num(&self) -> usize { 0 }
}
impl Num for [u64; 3] {
    const NAME: &'static str = "arr";
    const PERIOD: usize = 1 << 30;
    fn make(k: usize) -> Self { [k as u64, !(k as u64), 7] }
    fn num(&self) -> usize { if self[0] == !self[1] && self[2] == 7 { self[0] as usize } else { usize::MAX >> 33 } }
}
impl Num for OwnBox {
    const NAME: &'static str = "box";
    const PERIOD: usize = 199;
    fn make(k: usize) -> Self { <OwnBox as Item>::make((k % 199 + 1) as u8) }
    fn num(&self) -> usize { OwnBox::tag_at(self) as usize - 1 }
}

/// Breaks a sequence of numbers into runs (first number, how many consecutive ones).
fn runs(period: usize, it: impl Iterator<Item = usize>) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    for x in it {
        match v.last_mut() {
            Some((a, n)) if (*a + *n) % period == x => *n += 1,
            _ => v.push((x, 1)),
        }
    }
    v
}

struct Row { len: usize, avail: [usize; 3], seen: Vec<(usize, usize)>, accepted: usize, refused: bool, got: Vec<(usize, usize)>, after: [usize; 3] }

/// What a new session shows; `known`: the slots hold the supplied values.
fn look<T: Num, B: MutRB<Item = T>, const X: bool>(mut p: ProdIter<B>, mut w: Option<WorkIter<B>>, mut c: ConsIter<B, X>, known: bool) -> Row {
    let len = p.buf_len();
    let avail = [p.available(), w.as_mut().map_or(0, |w| w.available()), c.available()];
    #[cfg(not(feature = "vmem"))]
    let seen = if known { p.get_workable_slice_avail().map_or(vec![], |(h, t)| runs(T::PERIOD, h.iter().chain(t.iter()).map(T::num))) } else { vec![] };
    #[cfg(feature = "vmem")]
    let seen = if known { p.get_workable_slice_avail().map_or(vec![], |h| runs(T::PERIOD, h.iter().map(T::num))) } else { vec![] };
    let mut accepted = 0;
    let mut refused = false;
    while accepted < len + 2 {
        if p.push_init(T::make(accepted + 7)).is_err() { refused = true; break; }
        accepted += 1;
    }
    if let Some(w) = &mut w { let n = w.available(); unsafe { w.advance(n) } }
    let after = [p.available(), w.as_mut().map_or(0, |w| w.available()), c.available()];
    let mut got = vec![];
    while let Some(x) = unsafe { c.pop_move() } { if got.len() > len { break; } got.push(x.num()); }
    Row { len, avail, seen, accepted, refused, got: runs(T::PERIOD, got.into_iter()), after }
}

fn row<T: Num>(kind: &str, ctor: &str, n: usize, stages: usize, f: impl FnOnce() -> Row) {
    use std::io::Write;
    let head = format!("{{\"build\":\"{BUILD}\",\"kind\":\"{kind}\",\"ctor\":\"{ctor}\",\"item\":\"{}\",\"period\":{},\"n\":{n},\"stages\":{stages}", T::NAME, T::PERIOD);
    eprintln!("{head}}}");
    crate::items::ledger_reset(true);
    crate::alloc::take_errors();
    let before = crate::alloc::live();
    let r = catch_unwind(AssertUnwindSafe(f));
    // what the buffer has not given back (the row itself is not its business)
    let of = |v: &Vec<(usize, usize)>| (v.capacity() * size_of::<(usize, usize)>()) as isize;
    let bytes = r.as_ref().map_or(0, |r| crate::alloc::live() - before - of(&r.seen) - of(&r.got));
    let errors = crate::alloc::take_errors();
    let pairs = |v: &[(usize, usize)]| format!("[{}]", v.iter().take(50).map(|(a, n)| format!("[{a},{n}]")).collect::<Vec<_>>().join(","));
    let mut out = std::io::stdout().lock();
    let left = crate::items::ledger(|l| if l.errors == 0 { l.count as isize } else { -1 });
    match r {
        Err(_) => writeln!(out, "{head},\"panic\":true,\"left\":{left}}}"),
        Ok(r) => writeln!(out, "{head},\"panic\":false,\"len\":{},\"avail\":{:?},\"seen\":{},\"accepted\":{},\"refused\":{},\"got\":{},\"after\":{:?},\"left\":{left},\"bytes\":{bytes},\"errors\":{errors}}}",
            r.len, r.avail, pairs(&r.seen), r.accepted, r.refused, pairs(&r.got), r.after),
    }.unwrap();
}

fn items<T: Num>(n: usize) -> Vec<T> { (0..n).map(T::make).collect() }
/// A vector whose capacity is larger than its length
#[cfg(feature = "alloc")]
fn roomy<T: Num>(n: usize, spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n + spare);
    v.extend((0..n).map(T::make));
    v
}

#[cfg(feature = "alloc")]
macro_rules! heap { ($T:ty, $B:ident, $n:expr) => { {
    let n = $n;
    for stages in [2, 3] {
        let go = |b: $B<$T>, known: bool| if stages == 2 { let (p, c) = b.split(); look(p, None, c, known) } else { let (p, w, c) = b.split_mut(); look(p, Some(w), c, known) };
        let kind = stringify!($B);
        if !cfg!(feature = "vmem") || n % 4096 == 0 {
            row::<$T>(kind, "vec", n, stages, || go($B::from(items::<$T>(n)), true));
            for spare in [1, n / 16 + 1, n / 2 + 3, 2 * n + 5] {
                row::<$T>(kind, "roomy", n, stages, || go($B::from(roomy::<$T>(n, spare)), true));
            }
        }
        row::<$T>(kind, "zeroed", n, stages, || go(unsafe { <$B<$T>>::new_zeroed(n) }, false));
    }
} } }
#[cfg(feature = "alloc")]
macro_rules! heap_default { ($T:ty, $B:ident, $n:expr) => { {
    let n = $n;
    for stages in [2, 3] {
        let go = |b: $B<$T>| if stages == 2 { let (p, c) = b.split(); look(p, None, c, false) } else { let (p, w, c) = b.split_mut(); look(p, Some(w), c, false) };
        row::<$T>(stringify!($B), "default", n, stages, || go(<$B<$T>>::default(n)));
    }
} } }
#[cfg(not(feature = "vmem"))]
macro_rules! stack { ($T:ty, $B:ident, $($n:literal)*) => { $( {
    for stages in [2, 3] {
        let go = |mut b: Box<$B<$T, $n>>, known: bool| if stages == 2 { let (p, c) = b.split(); look(p, None, c, known) } else { let (p, w, c) = b.split_mut(); look(p, Some(w), c, known) };
        let kind = stringify!($B);
        row::<$T>(kind, "array", $n, stages, || go(Box::new($B::from(<[$T; $n]>::try_from(items::<$T>($n)).ok().unwrap())), true));
        row::<$T>(kind, "zeroed", $n, stages, || go(Box::new(unsafe { <$B<$T, $n>>::new_zeroed() }), false));
    }
} )* } }
#[cfg(not(feature = "vmem"))]
macro_rules! stack_default { ($T:ty, $B:ident, $($n:literal)*) => { $( {
    for stages in [2, 3] {
        let go = |mut b: Box<$B<$T, $n>>| if stages == 2 { let (p, c) = b.split(); look(p, None, c, false) } else { let (p, w, c) = b.split_mut(); look(p, Some(w), c, false) };
        row::<$T>(stringify!($B), "default", $n, stages, || go(Box::new(<$B<$T, $n>>::default())));
    }
} )* } }

pub fn table() {
    std::panic::set_hook(Box::new(|_| ()));
    #[cfg(feature = "alloc")]
    {
        #[cfg(not(feature = "vmem"))]
        let lens: Vec<usize> = (0..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 10_000]).collect();
        #[cfg(feature = "vmem")]
        let lens: Vec<usize> = vec![0, 1, 2, 3, 511, 1000, 2047, 2048, 4095, 4096, 4097, 5000, 6144, 8191, 8192, 8193, 12288, 16384, 16385];
        for &n in &lens {
            heap!(u32, ConcurrentHeapRB, n);
            heap!(u32, LocalHeapRB, n);
            heap!(u8, ConcurrentHeapRB, n);
            heap!([u64; 3], LocalHeapRB, n);
            heap!(OwnBox, ConcurrentHeapRB, n);
            heap_default!(u32, ConcurrentHeapRB, n);
            heap_default!(u8, LocalHeapRB, n);
            heap_default!(OwnBox, LocalHeapRB, n);
            if n < 70 { heap!((), ConcurrentHeapRB, n); heap_default!((), LocalHeapRB, n); }
        }
        #[cfg(not(feature = "vmem"))]
        for n in [65535, 65536, 65537] {
            heap!(u32, ConcurrentHeapRB, n);
            heap!(u8, LocalHeapRB, n);
        }
    }
    #[cfg(not(feature = "vmem"))]
    {
        stack!(u32, ConcurrentStackRB, 0 1 2 3 4 5 6 7 8 15 16 17 31 32 33 64 100 255 256 257 1000);
        stack!(u32, LocalStackRB, 0 1 2 3 4 5 6 7 8 15 16 17 31 32 33 64 100 255 256 257 1000);
        stack!(u8, LocalStackRB, 0 1 2 3 4 5 8 255 256 257);
        stack!([u64; 3], ConcurrentStackRB, 0 1 2 3 4 5 8 64);
        stack!(OwnBox, ConcurrentStackRB, 0 1 2 3 4 5 8 64);
        stack!(OwnBox, LocalStackRB, 0 1 2 3 4 5 8 64);
        stack_default!(u32, ConcurrentStackRB, 0 1 2 3 4 5 8 64 255 256 257);
        stack_default!(u8, LocalStackRB, 0 1 2 3 4 5 8 64 255 256 257);
    }
}
