//! Item types. Every value carries a tag (1..=250); owning types also an instance id known to the ledger.

use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, ConsIter, ProdIter};
use mutringbuf::MutRB;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;

pub type Tag = u8;
/// Not a value.
pub const BAD: Tag = 255;
/// What default-constructed items are tagged with.
pub const DEF: Tag = 251;

pub type BoxFut<'a, O> = Pin<Box<dyn Future<Output = Option<O>> + 'a>>;

pub trait Item: Clone + Default + 'static {
    const NAME: &'static str;
    const OWN: bool;
    const COPY: bool = !Self::OWN;
    fn make(tag: Tag) -> Self;
    /// Tag of the value at `p`, or [`BAD`]
    fn tag_at(p: *const Self) -> Tag;
    /// Changes the tag in place.
    fn edit(&mut self, tag: Tag);
    fn default_tag() -> Tag { DEF }

    // Calls that exist for `Copy` items only; `false`: not there
    fn c_push_slice<B: MutRB<Item = Self>>(_: &mut ProdIter<'_, B>, _: &[Self]) -> Option<()> { unreachable!() }
    fn c_push_slice_init<B: MutRB<Item = Self>>(_: &mut ProdIter<'_, B>, _: &[Self]) -> Option<()> { unreachable!() }
    fn c_copy_item<B: MutRB<Item = Self>, const W: bool>(_: &mut ConsIter<'_, B, W>, _: &mut Self) -> Option<()> { unreachable!() }
    fn c_copy_slice<B: MutRB<Item = Self>, const W: bool>(_: &mut ConsIter<'_, B, W>, _: &mut [Self]) -> Option<()> { unreachable!() }
    fn a_push_slice<'a, B: MutRB<Item = Self>>(_: &'a mut AsyncProdIter<'static, B>, _: &'a [Self]) -> BoxFut<'a, ()> { unreachable!() }
    fn a_copy_item<'a, B: MutRB<Item = Self>, const W: bool>(_: &'a mut AsyncConsIter<'static, B, W>, _: &'a mut Self) -> BoxFut<'a, ()> { unreachable!() }
    fn a_copy_slice<'a, B: MutRB<Item = Self>, const W: bool>(_: &'a mut AsyncConsIter<'static, B, W>, _: &'a mut [Self]) -> BoxFut<'a, ()> { unreachable!() }
}

macro_rules! copy_calls { () => {
    fn c_push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<'_, B>, s: &[Self]) -> Option<()> { p.push_slice(s) }
    fn c_push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<'_, B>, s: &[Self]) -> Option<()> { p.push_slice_init(s) }
    fn c_copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<'_, B, W>, d: &mut Self) -> Option<()> { c.copy_item(d) }
    fn c_copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<'_, B, W>, d: &mut [Self]) -> Option<()> { c.copy_slice(d) }
    fn a_push_slice<'a, B: MutRB<Item = Self>>(p: &'a mut AsyncProdIter<'static, B>, s: &'a [Self]) -> BoxFut<'a, ()> { Box::pin(p.push_slice(s)) }
    fn a_copy_item<'a, B: MutRB<Item = Self>, const W: bool>(c: &'a mut AsyncConsIter<'static, B, W>, d: &'a mut Self) -> BoxFut<'a, ()> { Box::pin(c.copy_item(d)) }
    fn a_copy_slice<'a, B: MutRB<Item = Self>, const W: bool>(c: &'a mut AsyncConsIter<'static, B, W>, d: &'a mut [Self]) -> BoxFut<'a, ()> { Box::pin(c.copy_slice(d)) }
} }

/// Byte `k` of the representation of `tag`: never zero for byte 0, different for all tags.
fn pat(tag: Tag, k: usize) -> u8 {
    if k == 0 { tag } else { tag.wrapping_mul(167).wrapping_add((k as u8).wrapping_mul(59)) ^ 0x3c }
}

macro_rules! copy_int { ($($t:ty),*) => { $(
    impl Item for $t {
        const NAME: &'static str = stringify!($t);
        const OWN: bool = false;
        fn make(tag: Tag) -> Self {
            if tag == 0 { return 0; }
            let mut b = [0; std::mem::size_of::<$t>()];
            for (k, x) in b.iter_mut().enumerate() { *x = pat(tag, k); }
            <$t>::from_le_bytes(b)
        }
        fn tag_at(p: *const Self) -> Tag {
            let v = unsafe { p.read() };
            let tag = v.to_le_bytes()[0];
            if v == Self::make(tag) { tag } else { BAD }
        }
        fn edit(&mut self, tag: Tag) { *self = Self::make(tag); }
        fn default_tag() -> Tag { 0 }
        copy_calls!();
    }
)* } }
copy_int!(u8, u16, u64, u128);

/// An array-like item
#[derive(Clone, Copy, PartialEq)]
pub struct Arr<const N: usize>([u8; N]);
impl<const N: usize> Default for Arr<N> {
    fn default() -> Self { Self::make(DEF) }
}
impl<const N: usize> Item for Arr<N> {
    const NAME: &'static str = "Arr";
    const OWN: bool = false;
    fn make(tag: Tag) -> Self { Self(std::array::from_fn(|k| pat(tag, k))) }
    fn tag_at(p: *const Self) -> Tag {
        let v = unsafe { p.read() };
        let tag = v.0[0];
        if tag != 0 && v == Self::make(tag) { tag } else { BAD }
    }
    fn edit(&mut self, tag: Tag) { *self = Self::make(tag); }
    copy_calls!();
}

// ---------------------------------------------------------------------------------------------

pub const BAD_DROP: u32 = 1; // of something that is no live value
pub const BAD_CLONE: u32 = 2;

/// Ids that do not fit one byte, for long buffers: for the item types that have room
const IDS: u32 = 40_000;

pub struct Ledger {
    tag: Vec<Tag>,
    live: Vec<bool>,
    free: std::collections::VecDeque<u32>,
    pub count: usize,
    pub errors: u32,
}

impl Ledger {
    fn fresh(ids: u32) -> Self {
        Self { tag: vec![0; IDS as usize], live: vec![false; IDS as usize], free: (1..ids).collect(), count: 0, errors: 0 }
    }
    fn reset(&mut self, ids: u32) {
        self.live.fill(false);
        self.free.clear();
        self.free.extend(1..ids);
        (self.count, self.errors) = (0, 0);
    }
    fn born(&mut self, tag: Tag) -> u32 {
        let id = self.free.pop_front().expect("LEDGER: too many live values");
        self.tag[id as usize] = tag;
        self.live[id as usize] = true;
        self.count += 1;
        id
    }
    fn dead(&mut self, id: u32) {
        if !self.live[id as usize] {
            self.errors |= BAD_DROP;
            return;
        }
        self.live[id as usize] = false;
        self.count -= 1;
        self.free.push_back(id);
    }
    fn tag(&self, id: u32) -> Tag {
        if self.live[id as usize] { self.tag[id as usize] } else { BAD }
    }
    fn cloned(&mut self, id: u32) -> u32 {
        if !self.live[id as usize] {
            self.errors |= BAD_CLONE;
            return self.born(BAD);
        }
        self.born(self.tag[id as usize])
    }
}

thread_local!(static LEDGER: RefCell<Option<Ledger>> = const { RefCell::new(None) });

pub fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(l.borrow_mut().get_or_insert_with(|| Ledger::fresh(255))))
}
/// Forgets everything; `many`: more values than fit one byte.
pub fn ledger_reset(many: bool) {
    ledger(|l| l.reset(if many { IDS } else { 255 }));
}

macro_rules! own { ($N:ident $(<$(const $g:ident),*>)?, $name:expr, |$s:ident| $id:expr, |$i:ident| $new:expr, $valid:expr) => {
    impl $(<$(const $g: usize),*>)? Drop for $N $(<$($g),*>)? {
        fn drop(&mut self) {
            let $s = &*self;
            let valid: fn(&Self) -> bool = $valid;
            if valid($s) { let id = $id; ledger(|l| l.dead(id)); } else { ledger(|l| l.errors |= BAD_DROP); }
        }
    }
    impl $(<$(const $g: usize),*>)? Clone for $N $(<$($g),*>)? {
        fn clone(&self) -> Self {
            let $s = self;
            let id = $id;
            let $i = ledger(|l| l.cloned(id));
            $new
        }
    }
    impl $(<$(const $g: usize),*>)? Default for $N $(<$($g),*>)? {
        fn default() -> Self { Self::make(DEF) }
    }
    impl $(<$(const $g: usize),*>)? Item for $N $(<$($g),*>)? {
        const NAME: &'static str = $name;
        const OWN: bool = true;
        fn make(tag: Tag) -> Self {
            let $i = ledger(|l| l.born(tag));
            $new
        }
        fn tag_at(p: *const Self) -> Tag {
            let bytes = unsafe { std::slice::from_raw_parts(p as *const u8, std::mem::size_of::<Self>()) };
            if bytes.iter().all(|b| *b == 0) { return BAD; }
            let $s = unsafe { &*p };
            let valid: fn(&Self) -> bool = $valid;
            if !valid($s) { return BAD; }
            let id = $id;
            ledger(|l| l.tag(id))
        }
        fn edit(&mut self, tag: Tag) {
            let $s = &*self;
            let id = $id;
            ledger(|l| if l.live[id as usize] { l.tag[id as usize] = tag });
        }
    }
} }

/// One byte which is the id; all others are zero.
pub struct OwnAt<const N: usize, const K: usize>([u8; N]);
own!(OwnAt<const N, const K>, "OwnAt", |s| s.0[K] as u32, |i| { let mut b = [0; N]; b[K] = i as u8; Self(b) },
    |s| s.0.iter().enumerate().all(|(k, b)| (k == K) == (*b != 0)));

/// The id within the upper half of a wide integer
pub struct OwnWide(u128);
own!(OwnWide, "OwnWide", |s| (s.0 >> 72) as u32, |i| Self((i as u128) << 72), |s| s.0 != 0 && (s.0 >> 72) < IDS as u128 && s.0 == (s.0 >> 72) << 72);

/// With padding
#[repr(C)]
pub struct OwnPad { a: u8, id: u32, c: u16 }
own!(OwnPad, "OwnPad", |s| s.id, |i| Self { a: 0, id: i, c: 0 }, |s| s.a == 0 && s.c == 0 && s.id != 0 && s.id < IDS);

/// Owns memory
pub struct OwnBox(Box<[u64; 2]>);
own!(OwnBox, "OwnBox", |s| s.0[1] as u32, |i| Self(crate::alloc::unwatched(|| Box::new([0x600d_cafe, i as u64]))), |s| s.0[0] == 0x600d_cafe && s.0[1] < IDS as u64);

/// Where the non-zero bytes of the items below are: position, position of the second, what becomes of that (0: nothing, 1: the
/// same, 2: the sum is 256)
static VAR: std::sync::Mutex<(usize, usize, u8)> = std::sync::Mutex::new((0, 0, 0));
/// `v12@8`: byte 8; `v12@8=3`, `v12@8+3`: also byte 3, with the same value or the one that adds to 256
pub fn set_var(item: &str) -> &str {
    let Some((name, at)) = item.split_once('@') else { return item };
    let mode = if at.contains('=') { 1 } else if at.contains('+') { 2 } else { 0 };
    let mut k = at.split(['=', '+']).map(|x| x.parse::<usize>().unwrap());
    let a = k.next().unwrap();
    *VAR.lock().unwrap() = (a, k.next().unwrap_or(a), mode);
    name
}
fn var() -> (usize, usize, u8) { *VAR.lock().unwrap() }
/// All ids but 0 and 255 become bytes, big and small ones alternating.
fn var_byte(id: u32) -> u8 { (if id % 2 == 1 { 256 - (id as i32 + 1) / 2 } else { id as i32 / 2 }) as u8 }
fn var_id(b: u8) -> u32 { if b >= 128 { (256 - b as u32) * 2 - 1 } else { b as u32 * 2 } }
fn var_bytes(b: &mut [u8], id: u32) {
    let (k, j, mode) = var();
    b[k] = var_byte(id);
    match mode { 1 => b[j] = b[k], 2 => b[j] = 0u8.wrapping_sub(b[k]), _ => {} }
}
fn var_valid(b: &[u8]) -> bool {
    let (k, j, mode) = var();
    b[k] != 0 && b.iter().enumerate().all(|(i, x)| if i == k { true } else if i == j && mode > 0 { *x == if mode == 1 { b[k] } else { 0u8.wrapping_sub(b[k]) } } else { *x == 0 })
}
fn bytes_of<T>(x: &T) -> &[u8] { unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) } }

macro_rules! own_var { ($($A:ident, $I:ty, $N:literal;)*) => { $(
    pub struct $A([$I; $N]);
    own!($A, stringify!($A), |s| var_id(bytes_of(s)[var().0]), |i| {
        let mut b = [0u8; std::mem::size_of::<[$I; $N]>()];
        var_bytes(&mut b, i);
        Self(unsafe { std::mem::transmute::<[u8; std::mem::size_of::<[$I; $N]>()], [$I; $N]>(b) })
    }, |s| var_valid(bytes_of(s)));
)* } }
own_var! {
    V1, u8, 1; V2, u16, 1; V3, u8, 3; V4, u32, 1; V5, u8, 5; V6, u16, 3; V8, u64, 1; V9, u8, 9; V12, u32, 3; V16, u128, 1;
    V20, u32, 5; V24, u64, 3; V33, u8, 33; V40, u64, 5; V48, u128, 3;
}

// ---------------------------------------------------------------------------------------------
// Items of whole pages

pub struct OwnPage<const N: usize>([u64; N]);
own!(OwnPage<const N>, "OwnPage", |s| s.0[N - 1] as u32, |i| { let mut w = [0; N]; w[N - 1] = i as u64; Self(w) },
    |s| s.0[N - 1] != 0 && s.0[N - 1] < IDS as u64 && s.0[..N - 1].iter().all(|w| *w == 0));

#[derive(Clone, Copy)]
pub struct Page { a: u64, rest: [u64; 510], b: u64 }
impl Default for Page {
    fn default() -> Self { Self::make(DEF) }
}
impl Item for Page {
    const NAME: &'static str = "Page";
    const OWN: bool = false;
    fn make(tag: Tag) -> Self { let v = u64::from_le_bytes(std::array::from_fn(|k| pat(tag, k))); Page { a: v, rest: [v; 510], b: v } }
    fn tag_at(p: *const Self) -> Tag {
        let v = unsafe { &*p };
        let tag = v.a.to_le_bytes()[0];
        let w = u64::from_le_bytes(std::array::from_fn(|k| pat(tag, k)));
        if tag != 0 && v.a == w && v.b == w && v.rest[0] == w && v.rest[255] == w && v.rest[509] == w { tag } else { BAD }
    }
    fn edit(&mut self, tag: Tag) { *self = Self::make(tag); }
    copy_calls!();
}
