//! Replays walks through the graph of the specification on real buffers and compares every step.

use crate::alloc;
use crate::graph::{Call, Edge, Graph, Rng};
use crate::items::*;
use crate::proc::{self, Shared};
use crate::sys::*;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Profile {
    pub kind: String,
    pub item: String,
    pub style: Style,
    pub ctor: Ctor,
    pub split_async: bool,
}

impl Profile {
    /// `kind:item:style:ctor:split`
    pub fn parse(s: &str) -> Profile {
        let f: Vec<&str> = s.split(':').collect();
        Profile {
            kind: f[0].into(),
            item: f[1].into(),
            style: match f[2] { "sync" => Style::Sync, "async" => Style::Async, "attach" => Style::Attach, x => panic!("HARNESS: {x}") },
            ctor: match f[3] { "from" => Ctor::From, "default" => Ctor::Default, "zeroed" => Ctor::Zeroed, x => panic!("HARNESS: {x}") },
            split_async: f.get(4) == Some(&"a"),
        }
    }
    pub fn name(&self) -> String {
        format!("{}:{}:{}:{}:{}", self.kind, self.item, format!("{:?}", self.style).to_lowercase(),
            format!("{:?}", self.ctor).to_lowercase(), if self.split_async { "a" } else { "s" })
    }
}

#[cfg(feature = "alloc")]
fn heap<T: Item>(kind: &str, s: &Setup) -> Box<dyn Machine> {
    match kind {
        "conc-heap" => Box::new(Mach::<T, mutringbuf::ConcurrentHeapRB<T>>::new(s)),
        "local-heap" => Box::new(Mach::<T, mutringbuf::LocalHeapRB<T>>::new(s)),
        k => panic!("HARNESS: no {k} of this item"),
    }
}
#[cfg(not(feature = "vmem"))]
fn stack<T: Item>(kind: &str, s: &Setup) -> Box<dyn Machine> {
    macro_rules! n { ($B:ident: $($n:literal)*) => {
        match s.len { $($n => Box::new(Mach::<T, mutringbuf::$B<T, $n>>::new(s)),)* n => panic!("HARNESS: length {n}") }
    } }
    match kind {
        "conc-stack" => n!(ConcurrentStackRB: 1 2 3 4 5),
        "local-stack" => n!(LocalStackRB: 1 2 3 4 5),
        k => panic!("HARNESS: {k}"),
    }
}

pub fn machine(p: &Profile, s: &Setup) -> Box<dyn Machine> {
    #[cfg(not(feature = "vmem"))]
    if p.kind.ends_with("stack") {
        return match p.item.as_str() {
            "u64" => stack::<u64>(&p.kind, s),
            "own16" => stack::<OwnAt<16, 15>>(&p.kind, s),
            "box" => stack::<OwnBox>(&p.kind, s),
            i => panic!("HARNESS: {i}"),
        };
    }
    #[cfg(feature = "alloc")]
    macro_rules! vars { ($($n:literal => $V:ident,)*) => { match set_var(&p.item) {
        $($n => return Box::new(Mach::<$V, mutringbuf::ConcurrentHeapRB<$V>>::new(s)),)*
        _ => {},
    } } }
    #[cfg(feature = "alloc")]
    vars!("v1" => V1, "v2" => V2, "v3" => V3, "v4" => V4, "v5" => V5, "v6" => V6, "v8" => V8, "v9" => V9, "v12" => V12, "v16" => V16,
        "v20" => V20, "v24" => V24, "v33" => V33, "v40" => V40, "v48" => V48,);
    #[cfg(feature = "alloc")]
    return match p.item.as_str() {
        "u8" => heap::<u8>(&p.kind, s),
        "u64" => heap::<u64>(&p.kind, s),
        "u128" => heap::<u128>(&p.kind, s),
        "arr3" => heap::<Arr<3>>(&p.kind, s),
        "arr24" => heap::<Arr<24>>(&p.kind, s),
        "own1" => heap::<OwnAt<1, 0>>(&p.kind, s),
        "own8f" => heap::<OwnAt<8, 0>>(&p.kind, s),
        "own8l" => heap::<OwnAt<8, 7>>(&p.kind, s),
        "own16" => heap::<OwnAt<16, 15>>(&p.kind, s),
        "own17" => heap::<OwnAt<17, 16>>(&p.kind, s),
        "own24" => heap::<OwnAt<24, 11>>(&p.kind, s),
        "wide" => heap::<OwnWide>(&p.kind, s),
        #[cfg(feature = "vmem")]
        "page" => heap::<OwnPage<512>>(&p.kind, s),
        #[cfg(feature = "vmem")]
        "page2" => heap::<OwnPage<1024>>(&p.kind, s),
        #[cfg(feature = "vmem")]
        "pagec" => heap::<Page>(&p.kind, s),
        "pad" => heap::<OwnPad>(&p.kind, s),
        "box" => heap::<OwnBox>(&p.kind, s),
        i => panic!("HARNESS: {i}"),
    };
    #[allow(unreachable_code)]
    { panic!("HARNESS: no such buffer: {}", p.name()) }
}

pub struct Mismatch {
    pub kind: &'static str,
    pub step: usize,
    pub msg: String,
}

macro_rules! fail { ($step:expr, $kind:expr, $($a:tt)*) => { return Err(Mismatch { kind: $kind, step: $step, msg: format!($($a)*) }) } }
macro_rules! same { ($step:expr, $kind:expr, $what:expr, $got:expr, $want:expr) => { {
    let (got, want) = ($got, $want);
    if got != want { fail!($step, $kind, "{}: got {:?}, specified {:?}", $what, got, want) }
} } }

fn default_tag(item: &str) -> Tag {
    match item { "u8" | "u16" | "u64" | "u128" => 0, _ => DEF }
}

struct Hash(u64);
impl Hash {
    fn add(&mut self, x: u64) { self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23) ^ 0x9e37_79b9; }
}

/// Replays `path`; `probe`: ask every iterator for its availability after every step. Yields a hash of
/// all that was observed.
pub fn run(g: &Graph, p: &Profile, path: &[u32], seed: u64, salt: u64, probe: bool, progress: &dyn Fn(usize)) -> Result<(u64, bool), Mismatch> {
    ledger_reset(g.len > 50);
    alloc::take_errors();
    let len = g.len;
    let mut rng = Rng::new(seed); // what every profile has to see alike
    let mut fl = Rng::new(seed ^ salt.wrapping_mul(7919)); // which of the equivalent forms is used
    let s0 = &g.states[0];
    let init: Vec<Tag> = (0..len).map(|i| if len < 50 { 201 + i as Tag } else { (i % 199 + 1) as Tag }).collect();
    let setup = Setup { len, ctor: p.ctor, style: p.style, worker: s0.worker, split_async: p.split_async, tags: init.clone() };
    let mut m = std::mem::ManuallyDrop::new(machine(p, &setup));
    let own = m.own();
    let mut shadow: Vec<Option<Tag>> = (0..len).map(|i| match p.ctor {
        Ctor::From => Some(init[i]),
        Ctor::Default => Some(default_tag(&p.item)),
        Ctor::Zeroed => None,
    }).collect();
    let mut next: Tag = 0;
    let mut fresh = move || { next = next % 200 + 1; next };
    let mut pending: [Vec<Tag>; 3] = Default::default();
    let mut h = Hash(17);
    let mut at = 0u32;
    let mut diverted = false;

    check_state(g, &mut **m, INIT, at, &shadow, own, probe, &mut h)?;

    for (step, e) in path.iter().enumerate() {
        let e: &Edge = &g.edges[*e as usize];
        assert_eq!(e.src, at, "HARNESS: broken path");
        progress(step);
        let s = &g.states[at as usize];
        let r = e.role;
        let fcall = match e.call {
            Call::FPoll | Call::FDrop => s.fut[r].map(|(f, n)| (f.call(), n)),
            Call::FNew(f) => Some((f.call(), e.n)),
            c => Some((c, e.n)),
        };
        let (call, n) = fcall.unwrap();
        let room = if n > len + 1 { 1 } else { n.max(1) };
        let tags: Vec<Tag> = match call {
            _ if matches!(e.call, Call::FPoll | Call::FDrop) => pending[r].clone(),
            Call::Push | Call::PushI | Call::PushS | Call::PushSI | Call::Ptr => (0..room).map(|_| fresh()).collect(), _ => vec![] };
        let edits: Vec<Tag> = match call {
            Call::Win1 | Call::WinN | Call::WinA | Call::WinM => (0..len).map(|_| if rng.chance(1, 2) { fresh() } else { 0 }).collect(),
            _ => vec![],
        };
        let idx = if r < 3 { s.idx[r] } else { 0 };
        let a = Args {
            call: e.call, n: e.n, fl: fl.below(1 << 12), tags: &tags, edits: &edits,
            occupied: r < 3 && shadow[idx].is_some(), idx, avail: if r < 3 { s.avail[r] } else { 0 }, len,
        };
        if let Call::FNew(_) = e.call { pending[r] = tags.clone(); }
        let before = m.bytes();
        let o = m.exec(r, &a);
        let heap = !m.is_stack();
        if cfg!(feature = "vmem") && heap && e.call == Call::Drop {
            let left = g.states[e.dst as usize].alive.iter().any(|x| *x);
            let (pages, mapped) = m.mapped();
            same!(step, "map", "mapped pages of the buffer", mapped, if left { pages } else { 0 });
        }
        let pos: Vec<usize> = (0..e.cnt.min(len)).map(|k| (idx + k) % len).collect();
        let expect = |sh: &[Option<Tag>]| pos.iter().map(|i| sh[*i].unwrap_or(BAD)).collect::<Vec<_>>();

        // the outcome
        if !o.skip && !matches!(e.call, Call::FNew(_) | Call::FDrop) {
            match call {
                Call::Avail => same!(step, "avail", "available()", o.num, Some(e.cnt)),
                Call::Win1 | Call::WinN | Call::WinA | Call::WinM | Call::Peek1 | Call::PeekN | Call::PeekA => {
                    same!(step, "grant", "slots granted", if o.ok { o.num.unwrap() } else { 0 }, e.cnt);
                    if e.call == Call::FPoll { same!(step, "grant", "future resolved", o.ok, e.ok); }
                    if e.cnt > 0 && m.base_known() {
                        let head = e.cnt.min(len - idx);
                        let mut want = vec![(idx as isize, head)];
                        if cfg!(feature = "vmem") { want = vec![(idx as isize, e.cnt)]; }
                        else if head < e.cnt { want.push((0, e.cnt - head)); }
                        same!(step, "win", "window (slot, slots)", o.wins, want);
                        same!(step, "val", "items in the window", o.tags.clone(), expect(&shadow));
                        if o.edited {
                            for (k, i) in pos.iter().enumerate() { if edits[k] != 0 { shadow[*i] = Some(edits[k]); } }
                        }
                    }
                }
                Call::Push | Call::PushI | Call::PushS | Call::PushSI => {
                    same!(step, "grant", "push accepted", o.ok, e.ok);
                    if let Some(src) = &o.src { same!(step, "refused", "source of the push", src.clone(), tags[..n].to_vec()); }
                    if e.ok { for (k, i) in pos.iter().enumerate() { shadow[*i] = Some(tags[k]); } }
                    else if let Some(b) = o.back { same!(step, "refused", "value handed back", b, tags[0]); }
                }
                Call::Ptr => {
                    same!(step, "grant", "slot granted", o.ok, e.ok);
                    if e.ok {
                        same!(step, "win", "slot granted", o.wins, vec![(idx as isize, 1)]);
                        if e.call != Call::FPoll || true { shadow[idx] = Some(tags[0]); }
                    }
                }
                Call::Take | Call::TakeS | Call::Move => {
                    same!(step, "grant", "items obtained", o.ok, e.ok);
                    if e.ok {
                        same!(step, "val", "items obtained", o.tags.clone(), expect(&shadow));
                        if call == Call::Move { shadow[idx] = None; }
                    }
                    if let Some(d) = &o.dst { same!(step, "refused", "destination", d.clone(), vec![DST; d.len()]); }
                }
                _ => (),
            }
            h.add(o.ok as u64 + 2 * o.num.unwrap_or(0) as u64);
            o.tags.iter().for_each(|t| h.add(*t as u64));
        }
        if !e.ok && !o.skip { same!(step, "refused", "contents after a refused call", m.bytes() == before, true); }

        // the state
        at = e.dst;
        if let (3, Some(alt)) = (r, g.alt.get(&(e.src, e.call))) {
            // the specification leaves a choice
            let fits = |d: u32| (0..3).all(|i| m.view(i).is_none_or(|v| v.published == g.states[d as usize].published && v.index == g.states[d as usize].idx[i]));
            match alt.iter().find(|d| fits(**d)) {
                Some(d) if *d == e.dst => (),
                Some(d) => { at = *d; diverted = true; }
                None => fail!(step, "split", "no specified session starts like this: {:?}", (0..3).filter_map(|i| m.view(i).map(|v| (i, v.index, v.published))).collect::<Vec<_>>()),
            }
        }
        if e.call == Call::FDrop || (e.call == Call::FPoll && e.ok) { pending[r].clear(); }
        for r in 0..3 {
            if g.states[at as usize].ready(r) && m.woken(r) == Some(false) {
                fail!(step, "wake", "a task waits for {:?} although it is possible, and was not woken", g.states[at as usize].fut[r].unwrap());
            }
        }
        check_state(g, &mut **m, step, at, &shadow, own, probe, &mut h)?;
        if diverted { break; }
    }

    // drop everything, in any order
    let last = path.len();
    progress(last);
    let mut left: Vec<usize> = (0..3).filter(|r| g.states[at as usize].alive[*r]).collect();
    fl.shuffle(&mut left);
    let heap = !m.is_stack();
    for i in 0..left.len() {
        m.exec(left[i], &Args { call: Call::Drop, n: 0, fl: 0, tags: &[], edits: &[], occupied: false, idx: 0, avail: 0, len });
        if cfg!(feature = "vmem") && heap {
            let (pages, mapped) = m.mapped();
            same!(last, "map", "mapped pages of the buffer", mapped, if i + 1 < left.len() { pages } else { 0 });
        }
        check_alloc(last, heap, i + 1 < left.len())?;
        for r in &left[i + 1..] {
            if let Some(v) = m.view(*r) {
                for x in 0..3 { same!(last, "alive", "liveness", v.alive[x], left[i + 1..].contains(&x)); }
            }
        }
        if own && (i + 1 < left.len() || !heap) {
            let want = shadow.iter().flatten().count() + m.held();
            same!(last, "ledger", "values alive after an iterator was dropped", ledger(|l| l.count), want);
        }
    }
    m.release();
    drop(std::mem::ManuallyDrop::into_inner(m));
    if own {
        let (count, errors) = ledger(|l| (l.count, l.errors));
        same!(last, "ledger", "destructor of something that is no live value", errors, 0);
        same!(last, "ledger", "values alive at the end", count, 0);
    }
    if !heap { let (a, n) = alloc::watch_count(); if a > 0 && n > 0 { fail!(last, "alloc", "leaked the buffer"); } }
    check_alloc(last, heap, false)?;
    Ok((h.0, diverted))
}

fn check_alloc(step: usize, heap: bool, alive: bool) -> Result<(), Mismatch> {
    let e = alloc::take_errors();
    if e != 0 {
        let mut s = String::new();
        for (b, n) in [(alloc::DOUBLE_FREE, "double free"), (alloc::BAD_FREE, "invalid free"), (alloc::OVERRUN, "write past the end"), (alloc::WRONG_LAYOUT, "wrong layout")] {
            if e & b != 0 { let _ = write!(s, "{n} "); }
        }
        fail!(step, "alloc", "{s}");
    }
    let (a, n) = alloc::watch_count();
    if heap {
        if alive && a != n { fail!(step, "alloc", "{} of {n} blocks of the buffer freed while an iterator is alive", n - a); }
        if !alive && a != 0 { fail!(step, "alloc", "{a} of {n} blocks of the buffer not freed after the last iterator was dropped"); }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_state(g: &Graph, m: &mut dyn Machine, step: usize, at: u32, shadow: &[Option<Tag>], own: bool, probe: bool, h: &mut Hash) -> Result<(), Mismatch> {
    let d = &g.states[at as usize];
    let heap = !m.is_stack();
    let any = d.alive.iter().any(|x| *x);
    let gone = heap && !any;
    for i in 0..shadow.len() {
        if gone { break; }
        if let (Some(t), true) = (shadow[i], m.base_known()) {
            let got = m.slot(i);
            if got != t { fail!(step, "slot", "slot {i} holds {got}, specified {t} (all: {:?})", &shadow[..shadow.len().min(40)]); }
        }
        if shadow[i].is_some() != d.occ[i] { fail!(step, "harness", "occupancy of slot {i}"); }
    }
    if cfg!(feature = "vmem") && !gone && m.base_known() { same!(step, "mirror", "the views of the buffer agree", m.mirrored(), true); }
    if own {
        let want = if gone { 0 } else { shadow.iter().flatten().count() } + m.held();
        let (count, errors) = ledger(|l| (l.count, l.errors));
        if errors & BAD_DROP != 0 { fail!(step, "ledger", "destructor of something that is no live value"); }
        if errors & BAD_CLONE != 0 { fail!(step, "ledger", "clone of something that is no live value"); }
        same!(step, "ledger", "values alive", count, want);
    }
    if heap { check_alloc(step, true, any)?; }
    else {
        let (a, n) = alloc::watch_count();
        if a != n { fail!(step, "alloc", "a stack buffer was freed"); }
        check_alloc(step, false, true)?;
    }
    for r in 0..3 {
        if !d.alive[r] { continue; }
        if let Some(v) = m.view(r) {
            same!(step, "idx", format!("index() of {}", ["producer", "worker", "consumer"][r]), v.index, d.idx[r]);
            same!(step, "pub", "published positions", v.published, d.published);
            same!(step, "alive", "liveness", v.alive, d.alive);
            same!(step, "len", "buf_len()", v.len, shadow.len());
            h.add(v.index as u64 + 100 * v.published[0] as u64 + 10000 * v.published[1] as u64 + 1_000_000 * v.published[2] as u64);
        }
    }
    if probe {
        for r in 0..3 {
            if !d.alive[r] || d.fut[r].is_some() { continue; }
            if let Some(n) = m.available(r) {
                same!(step, "avail", format!("available() of {}", ["producer", "worker", "consumer"][r]), n, d.avail[r]);
                h.add(n as u64);
            }
        }
    }
    Ok(())
}

pub fn ops(g: &Graph, path: &[u32]) -> String {
    let v: Vec<String> = path.iter().map(|e| {
        let e = &g.edges[*e as usize];
        format!("\"{}.{}({})={}{}\"", ["P", "W", "C", "B"][e.role], e.call.name(), e.n, if e.ok { "ok" } else { "no" }, if e.cnt > 0 { format!(":{}", e.cnt) } else { String::new() })
    }).collect();
    format!("[{}]", v.join(","))
}

pub fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_default()).collect::<String>().replace("\\'", "'").replace("\\u{", "u{") }

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn panic_text() -> String { PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())) }

pub struct Job<'a> {
    pub g: &'a Graph,
    pub profiles: &'a [Profile],
    pub paths: &'a [Vec<u32>],
    pub seed: u64,
    pub name: &'a str,
    /// the variants of the same items use the same forms
    pub alike: bool,
}

/// Whether such a mismatch is one of observable results.
fn seen(kind: &str, msg: &str) -> bool {
    match kind { "ledger" | "alloc" | "wake" | "map" | "mirror" | "harness" | "split" => false, "refused" => !msg.starts_with("contents"), _ => true }
}

const CHUNK: usize = 16;
/// the step before the first one
pub const INIT: usize = usize::MAX;
const SKIPPED: u64 = 2;

impl Job<'_> {
    /// Which forms of the calls are used: different ones in different variants, unless these are to be compared.
    fn salt(&self, p: &Profile) -> u64 { if self.alike { p.item.clone() } else { p.name() }.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) }

    fn report(&self, pi: usize, probe: bool, path: usize, kind: &str, step: usize, msg: &str) -> String {
        let full = &self.paths[path];
        let upto = &full[..step.wrapping_add(1).min(full.len())];
        let last = if step == INIT { "init".into() } else if step < full.len() { format!("{}.{}", ["P", "W", "C", "B"][self.g.edges[full[step] as usize].role], self.g.edges[full[step] as usize].call.name()) } else { "end".into() };
        format!("{{\"config\":\"{}\",\"profile\":\"{}\",\"probe\":{},\"path\":{},\"kind\":\"{}\",\"step\":{},\"op\":\"{}\",\"msg\":\"{}\",\"ops\":{}}}\n",
            self.name, self.profiles[pi].name(), probe, path, kind, step as isize, last, esc(msg), ops(self.g, upto))
    }

    /// Runs everything on `jobs` processes. Yields (report lines, replayed paths, replayed steps, diverted).
    pub fn run(&self, jobs: usize, timeout_ms: u64) -> (Vec<String>, u64, u64, u64) {
        let chunks = self.paths.len().div_ceil(CHUNK);
        let tasks = self.profiles.len() * 2 * chunks;
        let hashes = self.profiles.len() * 2 * self.paths.len();
        // shared: 0 next task, 1 paths, 2 steps, 3 diverted, 4.. mismatches per profile, then hashes
        let base = 4 + self.profiles.len();
        let shared = Shared::new(base + hashes);
        let body = |child: &proc::Child| {
            quiet_panics();
            let mut resume = child.resume();
            loop {
                let (t, from) = match resume.take() {
                    Some((t, f)) => (t, f),
                    None => (shared.add(0, 1) as usize, 0),
                };
                if t >= tasks { break; }
                let (pi, probe, chunk) = (t / (2 * chunks), t / chunks % 2 == 1, t % chunks);
                for path in (chunk * CHUNK + from)..((chunk + 1) * CHUNK).min(self.paths.len()) {
                    let slot = base + (pi * 2 + probe as usize) * self.paths.len() + path;
                    if shared.get(4 + pi) > 40 { shared.set(slot, SKIPPED); continue; }
                    let at = std::cell::Cell::new(0);
                    let note = |step: usize| { at.set(step); child.progress(t, path - chunk * CHUNK, step) };
                    note(0);
                    let p = &self.profiles[pi];
                    let seed = self.seed.wrapping_mul(1_000_003).wrapping_add(path as u64);
                    let r = catch_unwind(AssertUnwindSafe(|| run(self.g, p, &self.paths[path], seed, self.salt(p), probe, &note)));
                    shared.add(1, 1);
                    shared.add(2, self.paths[path].len() as u64);
                    let err = match r {
                        Ok(Ok((h, div))) => {
                            shared.set(slot, h & !2 | 1);
                            if div { shared.add(3, 1); }
                            continue;
                        }
                        Ok(Err(m)) => (m.kind, m.step, m.msg),
                        Err(_) => ("panic", at.get(), panic_text()),
                    };
                    shared.add(4 + pi, 1);
                    let mut h = Hash(99);
                    h.add(err.1 as u64);
                    err.0.bytes().for_each(|b| h.add(b as u64));
                    shared.set(slot, if seen(err.0, &err.2) { h.0 | 3 } else { SKIPPED });
                    child.out(&self.report(pi, probe, path, err.0, err.1, &err.2));
                }
            }
        };
        let (mut lines, crashes, aborted) = proc::pool(jobs, timeout_ms, &body);
        for c in crashes {
            let (pi, probe, chunk) = (c.task / (2 * chunks), c.task / chunks % 2 == 1, c.task % chunks);
            lines.push(self.report(pi, probe, chunk * CHUNK + c.item, c.kind, c.step, &c.msg));
        }
        // the same history, the same observations
        for probe in 0..2 {
            for path in 0..(if aborted { 0 } else { self.paths.len() }) {
                let hs: Vec<(usize, u64)> = (0..self.profiles.len()).filter(|i| self.profiles[*i].ctor != Ctor::Default)
                    .map(|i| (i, shared.get(base + (i * 2 + probe) * self.paths.len() + path))).filter(|h| h.1 != SKIPPED).collect();
                let right = |h: u64| h & 3 == 1;
                let mut told: Vec<&str> = vec![];
                for (k, &(i, h)) in hs.iter().enumerate() {
                    let item = self.profiles[i].item.as_str();
                    if told.contains(&item) { continue; }
                    let differs = |o: &&(usize, u64)| {
                        let both = right(h) && right(o.1) && (self.hidden(&self.profiles[i]) || self.hidden(&self.profiles[o.0]));
                        self.profiles[o.0].item == item && o.1 != h && !both
                    };
                    if let Some(o) = hs[k + 1..].iter().find(differs) {
                        told.push(item);
                        lines.push(self.report(o.0, probe == 1, path, "vary", self.paths[path].len(),
                            &format!("{} and {} behave differently on the same history", self.profiles[i].name(), self.profiles[o.0].name())));
                    }
                }
            }
        }
        (lines, shared.get(1), shared.get(2), shared.get(3))
    }

    /// Some calls cannot be observed there (asynchronous detached iterators).
    fn hidden(&self, p: &Profile) -> bool {
        p.style == Style::Async && self.g.states.iter().any(|s| s.det.iter().any(|d| *d))
    }
}
