//! Schedules the threads of a program and decides what its atomic accesses read, within what the memory model
//! (release/acquire views, one modification order per location in order of execution) allows; records the events.

use crate::co::Co;
use crate::mem;
use mutringbuf::verif_hooks::Runtime;
use std::sync::atomic::Ordering;

pub const NT: usize = 4;
const NL: usize = 12;
/// own atomic accesses within a single call
pub const CALL_LIMIT: u32 = 200;
const RUN_LIMIT: usize = 1500;
/// weak exchanges of a thread that fail without a reason
const SPURIOUS: u32 = 2;

pub type Clk = [u32; NT];
type View = [u32; NL];

#[derive(Clone, Copy, Default)]
struct Know { clk: Clk, view: View }
impl Know {
    fn join(&mut self, o: &Know) {
        for i in 0..NT { self.clk[i] = self.clk[i].max(o.clk[i]); }
        for i in 0..NL { self.view[i] = self.view[i].max(o.view[i]); }
    }
}

struct Msg { val: u64, know: Know }
struct Loc { addr: usize, msgs: Vec<Msg>, sc: u32 }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Load, Store, Rmw, Fence, Poll, Weak }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Tr { pub t: usize, pub kind: Kind, pub loc: usize, pub sc: bool, pub ts: u32 }

fn writes(k: Kind) -> bool { matches!(k, Kind::Store | Kind::Rmw | Kind::Weak) }
fn independent(a: &Tr, b: &Tr, latest_only: bool) -> bool {
    if a.t == b.t { return false; }
    if a.sc && b.sc { return false; }
    if a.kind == Kind::Fence || b.kind == Kind::Fence || a.loc != b.loc { return true; }
    if writes(a.kind) && writes(b.kind) { return false; }
    if latest_only || a.sc || b.sc { return !writes(a.kind) && !writes(b.kind); }
    true
}

struct Th {
    co: Option<Box<Co>>,
    know: Know,
    acq: Know,
    rel: Know,
    pending: Option<Tr>,
    ts: u32,
    steps: u32,
    /// awaiting: parked until woken
    parked: bool,
    woken: bool,
    /// number of stores when it was last polled
    polled_at: u64,
    forced: bool,
    spurious: u32,
}

/// How a run is to be scheduled.
pub enum Plan<'a> {
    Dfs(&'a mut Dfs),
    Random(u64),
    /// after every `each' accesses of the victim, which read the latest, another thread goes on until it has stored something
    Harass { victim: usize, each: usize, taken: usize, seen: u64 },
}

#[derive(Default)]
pub struct Dfs { stack: Vec<Node>, depth: usize, pub finished: bool, pub sleep: bool }
#[derive(Default)]
struct Node { all: Vec<Tr>, next: usize, sleep: Vec<Tr>, done: Vec<Tr> }

impl Dfs {
    pub fn new(sleep: bool) -> Self { Dfs { sleep, ..Default::default() } }
    /// `None`: nothing new that way
    fn pick(&mut self, all: Vec<Tr>, latest_only: bool) -> Option<Tr> {
        let d = self.depth;
        if d == self.stack.len() {
            let mut sleep = vec![];
            if d > 0 && self.sleep {
                let p = &self.stack[d - 1];
                let c = p.all[p.next];
                sleep = p.sleep.iter().chain(&p.done).filter(|s| independent(s, &c, latest_only)).copied().collect();
            }
            let mut n = Node { all, next: 0, sleep, done: vec![] };
            while n.next < n.all.len() && n.sleep.contains(&n.all[n.next]) { n.next += 1; }
            if n.next == n.all.len() { return None; }
            self.stack.push(n);
        } else {
            assert_eq!(self.stack[d].all, all, "HARNESS: the program is not deterministic");
        }
        self.depth += 1;
        let n = &self.stack[d];
        Some(n.all[n.next])
    }
    /// Prepares the next run.
    pub fn advance(&mut self) {
        self.depth = 0;
        while let Some(n) = self.stack.last_mut() {
            let c = n.all[n.next];
            n.done.push(c);
            n.next += 1;
            while n.next < n.all.len() && n.sleep.contains(&n.all[n.next]) { n.next += 1; }
            if n.next < n.all.len() { return; }
            self.stack.pop();
        }
        self.finished = true;
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum End { Done, Redundant, Limit, Quiet, Skip }

pub struct Rt {
    th: Vec<Th>,
    locs: Vec<Loc>,
    sc: Know,
    pub cur: usize,
    pub on: bool,
    stores: u64,
    pub latest_only: bool,
    /// what to print
    pub ev: String,
    /// slot -> last write and last reads, by clock
    lastw: Vec<(usize, u32)>,
    lastr: Vec<Clk>,
    pub suspicious: bool,
    freed: u64,
    pub limit_hit: bool,
    pub blocks: usize,
}

static mut RT: Option<Rt> = None;
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt { unsafe { RT.as_mut().unwrap() } }

pub static RUNTIME: Runtime = Runtime { load, store, rmw, fence, spurious };

fn is_acq(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
fn is_rel(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }
fn name(o: Ordering) -> &'static str {
    match o { Ordering::Relaxed => "x", Ordering::Acquire => "a", Ordering::Release => "r", Ordering::AcqRel => "ar", _ => "sc" }
}

fn load(addr: usize, o: Ordering, latest: u64) -> u64 {
    let r = rt();
    if !r.on { return latest; }
    let l = r.loc(addr, latest);
    let ts = r.stop(Kind::Load, l, o);
    r.do_load(l, o, ts)
}
fn store(addr: usize, o: Ordering, latest: u64, new: u64) {
    let r = rt();
    if !r.on { return; }
    let l = r.loc(addr, latest);
    r.stop(Kind::Store, l, o);
    r.do_store(l, o, new);
}
fn rmw(addr: usize, s: Ordering, e: Ordering, latest: u64, f: &mut dyn FnMut(u64) -> Option<u64>) -> u64 {
    let r = rt();
    if !r.on { f(latest); return latest; }
    let l = r.loc(addr, latest);
    r.stop(Kind::Rmw, l, s);
    r.do_rmw(l, s, e, f)
}
fn fence(o: Ordering) {
    let r = rt();
    if !r.on { return; }
    r.stop(Kind::Fence, NL, o);
    r.do_fence(o)
}

fn spurious(addr: usize, e: Ordering, latest: u64) -> bool {
    let r = rt();
    if !r.on { return false; }
    let l = r.loc(addr, latest);
    let t = r.cur;
    // a few of them
    if t == 0 || r.th[t].spurious == SPURIOUS { return false; }
    if r.stop(Kind::Weak, l, e) != 1 { return false; }
    if r.locs[l].msgs.last().unwrap().val != latest { return false; }
    r.th[t].spurious += 1;
    r.do_rmw(l, e, e, &mut |_| None);
    true
}

use std::fmt::Write;
macro_rules! ev { ($r:expr, $($a:tt)*) => { { write!($r.ev, $($a)*).unwrap(); $r.ev.push(','); } } }
pub(crate) use ev;

impl Rt {
    pub fn install(latest_only: bool, slots: usize) {
        let th = (0..NT).map(|_| Th {
            co: None, know: Default::default(), acq: Default::default(), rel: Default::default(), pending: None, ts: 0, steps: 0,
            parked: false, woken: false, polled_at: 0, forced: false, spurious: 0,
        }).collect();
        unsafe {
            RT = Some(Rt {
                th, locs: vec![], sc: Default::default(), cur: 0, on: false, stores: 1, latest_only, ev: String::with_capacity(8192),
                lastw: vec![(0, 0); slots], lastr: vec![[0; NT]; slots], suspicious: false, freed: 0, limit_hit: false, blocks: 0,
            })
        }
    }

    fn loc(&mut self, addr: usize, latest: u64) -> usize {
        if let Some(i) = self.locs.iter().position(|l| l.addr == addr) { return i; }
        assert!(self.locs.len() < NL, "HARNESS: too many atomics");
        self.locs.push(Loc { addr, msgs: vec![Msg { val: latest, know: Default::default() }], sc: 0 });
        let i = self.locs.len() - 1;
        ev!(self, "[\"I\",{},{}]", i, latest);
        i
    }

    /// Called before an atomic access of the current thread: lets the scheduler decide when, and what it reads.
    fn stop(&mut self, kind: Kind, loc: usize, o: Ordering) -> u32 {
        let t = self.cur;
        let sc = o == Ordering::SeqCst;
        self.th[t].steps += 1;
        if self.th[t].steps > CALL_LIMIT {
            if !self.limit_hit { ev!(self, "[\"X\",{}]", t); }
            self.limit_hit = true;
            self.suspicious = true;
            if t == 0 { panic!("LIMIT") }
        }
        if t == 0 || self.th[t].co.is_none() {
            return if loc < NL { self.locs[loc].msgs.len() as u32 - 1 } else { 0 };
        }
        self.th[t].pending = Some(Tr { t, kind, loc, sc, ts: 0 });
        let co: *mut Co = &mut **self.th[t].co.as_mut().unwrap();
        unsafe { (*co).pause(); }
        self.th[t].pending = None;
        self.th[t].ts
    }

    fn tick(&mut self) -> usize {
        let t = self.cur;
        self.th[t].know.clk[t] += 1;
        t
    }
    fn check_freed(&mut self, l: usize) {
        if let Some(b) = mem::block_of(self.locs[l].addr) {
            if mem::w().blocks[b].freed { used_after_free(b); }
        }
    }
    fn do_load(&mut self, l: usize, o: Ordering, ts: u32) -> u64 {
        self.check_freed(l);
        let t = self.tick();
        let loc = &self.locs[l];
        let m = &loc.msgs[ts as usize];
        let (val, know) = (m.val, m.know);
        let th = &mut self.th[t];
        th.know.view[l] = th.know.view[l].max(ts);
        if is_acq(o) { th.know.join(&know) } else { th.acq.join(&know) }
        ev!(self, "[\"L\",{},{},\"{}\",{},{}]", t, l, name(o), val, ts);
        val
    }
    fn push_msg(&mut self, t: usize, l: usize, o: Ordering, val: u64, read: Option<Know>) {
        let ts = self.locs[l].msgs.len() as u32;
        let th = &mut self.th[t];
        th.know.view[l] = ts;
        let mut know = if is_rel(o) { th.know } else { th.rel };
        know.view[l] = ts;
        if let Some(r) = read { know.join(&r) }
        self.locs[l].msgs.push(Msg { val, know });
        if o == Ordering::SeqCst { self.locs[l].sc = ts; }
        self.stores += 1;
        // what follows is not covered by the message
        self.th[t].know.clk[t] += 1;
    }
    fn do_store(&mut self, l: usize, o: Ordering, new: u64) {
        self.check_freed(l);
        let t = self.tick();
        self.push_msg(t, l, o, new, None);
        ev!(self, "[\"S\",{},{},\"{}\",{}]", t, l, name(o), new);
    }
    fn do_rmw(&mut self, l: usize, s: Ordering, e: Ordering, f: &mut dyn FnMut(u64) -> Option<u64>) -> u64 {
        self.check_freed(l);
        let t = self.tick();
        let ts = self.locs[l].msgs.len() as u32 - 1;
        let m = self.locs[l].msgs.last().unwrap();
        let (val, know) = (m.val, m.know);
        let new = f(val);
        let o = if new.is_some() { s } else { e };
        let th = &mut self.th[t];
        th.know.view[l] = th.know.view[l].max(ts);
        if is_acq(o) { th.know.join(&know) } else { th.acq.join(&know) }
        if let Some(n) = new { self.push_msg(t, l, o, n, Some(know)); }
        ev!(self, "[\"U\",{},{},\"{}\",{},{},{},{}]", t, l, name(o), val, new.unwrap_or(val), new.is_some() as u8, ts);
        val
    }
    fn do_fence(&mut self, o: Ordering) {
        let t = self.tick();
        let acq = self.th[t].acq;
        if is_acq(o) { self.th[t].know.join(&acq); }
        if o == Ordering::SeqCst {
            let th = &mut self.th[t];
            for i in 0..NL { th.know.view[i] = th.know.view[i].max(self.sc.view[i]); }
            self.sc.view = th.know.view;
        }
        if is_rel(o) {
            self.th[t].rel = self.th[t].know;
            self.th[t].know.clk[t] += 1;
        }
        ev!(self, "[\"F\",{},\"{}\"]", t, name(o));
    }

    /// Own steps are counted anew.
    pub fn begin_call(&mut self) { let t = self.cur; self.th[t].steps = 0; }

    pub fn spawn(&mut self, t: usize, body: Box<dyn FnOnce() + '_>) {
        let mut know = self.th[0].know;
        know.clk[t] += 1;
        self.th[t].know = know;
        self.th[t].co = Some(Co::new(body));
    }

    fn resume(&mut self, t: usize) {
        mem::protect();
        self.cur = t;
        let co: *mut Co = &mut **self.th[t].co.as_mut().unwrap();
        unsafe { (*co).resume(); }
        self.cur = 0;
        if unsafe { (*co).done } {
            if unsafe { (*co).panicked } { self.limit_hit = true; self.suspicious = true; ev!(self, "[\"A\",{}]", t); }
            self.th[t].co.take().unwrap().retire();
        }
    }

    fn options(&self, t: usize, out: &mut Vec<Tr>) {
        let th = &self.th[t];
        let Some(p) = th.pending else { return };
        match p.kind {
            Kind::Load => {
                let last = self.locs[p.loc].msgs.len() as u32 - 1;
                let mut low = th.know.view[p.loc];
                if p.sc { low = low.max(self.locs[p.loc].sc).max(self.sc.view[p.loc]); }
                if self.latest_only || th.forced { low = last; }
                let mut ts = last;
                loop {
                    out.push(Tr { ts, ..p });
                    if ts == low { break; }
                    ts -= 1;
                }
            },
            Kind::Weak => {
                out.push(Tr { ts: 0, ..p });
                out.push(Tr { ts: 1, ..p });
            },
            Kind::Poll => {
                if th.woken && self.stores > th.polled_at { out.push(p) }
            },
            _ => out.push(p),
        }
    }

    /// Runs the threads to their ends.
    pub fn run(&mut self, plan: &mut Plan) -> End {
        self.on = true;
        for t in 1..NT { if self.th[t].co.is_some() { self.resume(t); } }
        let mut last = 0;
        let mut n = 0;
        loop {
            if self.limit_hit { self.abandon(); return End::Limit; }
            let mut all = vec![];
            if last != 0 { self.options(last, &mut all); }
            for t in 1..NT { if t != last { self.options(t, &mut all); } }
            if all.is_empty() {
                // those which were woken, but for which nothing happened since: once more, all having become visible
                if let Some(t) = (1..NT).find(|t| self.th[*t].pending.is_some_and(|p| p.kind == Kind::Poll) && self.th[*t].woken && !self.th[*t].forced) {
                    self.th[t].forced = true;
                    self.poll_now(t);
                    last = t;
                    continue;
                }
                if (1..NT).any(|t| self.th[t].co.is_some()) {
                    for t in 1..NT { if self.th[t].co.is_some() { ev!(self, "[\"Q\",{},{}]", t, self.th[t].woken as u8); } }
                    self.abandon();
                    return End::Quiet;
                }
                return End::Done;
            }
            n += 1;
            if n > RUN_LIMIT { self.abandon(); return End::Redundant; }
            let c = match plan {
                Plan::Dfs(d) => match d.pick(all, self.latest_only) {
                    Some(c) => c,
                    None => { self.abandon(); return End::Redundant; },
                },
                Plan::Harass { victim, each, taken, seen } => {
                    let mine = all.iter().find(|c| c.t == *victim);
                    let theirs = all.iter().find(|c| c.t == last && c.t != *victim).or(all.iter().find(|c| c.t != *victim));
                    if *taken >= *each && self.stores > *seen { *taken = 0; }
                    let c = *if *taken < *each { mine.or(theirs) } else { theirs.or(mine) }.unwrap();
                    if c.t == *victim { *taken += 1; *seen = self.stores + (c.kind == Kind::Store || c.kind == Kind::Rmw) as u64; }
                    c
                },
                Plan::Random(s) => {
                    let mut r = Rng(*s);
                    let pool: Vec<_> = if last != 0 && r.below(10) < 6 { all.iter().filter(|c| c.t == last).collect() } else { vec![] };
                    let c = if !pool.is_empty() { *pool[r.below(pool.len())] }
                        else {
                            let ts: Vec<usize> = { let mut v: Vec<_> = all.iter().map(|c| c.t).collect(); v.dedup(); v };
                            let t = ts[r.below(ts.len())];
                            let pool: Vec<_> = all.iter().filter(|c| c.t == t).collect();
                            *pool[r.below(pool.len())]
                        };
                    *s = r.0;
                    c
                },
            };
            last = c.t;
            if c.kind == Kind::Poll { self.th[c.t].forced = false; self.poll_now(c.t); continue; }
            self.th[c.t].ts = c.ts;
            self.resume(c.t);
        }
    }
    fn poll_now(&mut self, t: usize) {
        self.th[t].parked = false;
        self.th[t].woken = false;
        self.th[t].polled_at = self.stores;
        self.resume(t);
    }
    fn abandon(&mut self) {
        self.on = false;
        for t in 1..NT { if let Some(c) = self.th[t].co.take() { c.retire() } }
    }

    /// The current task got `Pending`.
    pub fn park(&mut self) {
        let t = self.cur;
        ev!(self, "[\"p\",{}]", t);
        if t == 0 { panic!("LIMIT") }
        self.th[t].parked = true;
        self.th[t].pending = Some(Tr { t, kind: Kind::Poll, loc: NL, sc: false, ts: 0 });
        let co: *mut Co = &mut **self.th[t].co.as_mut().unwrap();
        unsafe { (*co).pause(); }
        self.th[t].pending = None;
    }
    /// About to poll: a wake from now on counts.
    pub fn polling(&mut self) {
        let t = self.cur;
        self.th[t].woken = false;
        self.th[t].polled_at = self.stores;
        self.th[t].steps = 0;
    }
    pub fn polled(&mut self) { let t = self.cur; self.th[t].forced = false; }
    pub fn wake(&mut self, t: usize) {
        if !self.on { return; }
        ev!(self, "[\"k\",{},{}]", self.cur, t);
        self.th[t].woken = true;
    }

    /// All threads have ended: the main one knows what they knew.
    pub fn join(&mut self) {
        for t in 1..NT { let k = self.th[t].know; self.th[0].know.join(&k); }
        ev!(self, "[\"J\"]");
        mem::protect();
    }

    fn access(&mut self, slot: usize, write: bool) {
        let t = self.cur;
        let k = self.th[t].know.clk;
        let (wt, wc) = self.lastw[slot];
        if wt != t && wc > k[wt] { self.suspicious = true; }
        if write {
            for u in 0..NT { if u != t && self.lastr[slot][u] > k[u] { self.suspicious = true; } }
            self.lastw[slot] = (t, k[t]);
        } else { self.lastr[slot][t] = k[t]; }
    }
}

pub fn touched(slot: usize, write: bool) {
    let r = rt();
    ev!(r, "[\"{}\",{},{}]", if write { "w" } else { "r" }, r.cur, slot);
    r.access(slot, write);
}
pub fn used_after_free(block: usize) {
    let r = rt();
    ev!(r, "[\"u\",{},{}]", r.cur, block);
    r.suspicious = true;
}
pub fn freed(block: usize) {
    let r = rt();
    ev!(r, "[\"f\",{},{}]", r.cur, block);
    if r.freed >> block & 1 == 1 { r.suspicious = true; }
    r.freed |= 1 << block;
}
