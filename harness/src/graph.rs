//! The transitions exported from Ring.tla by TLC, and walks that cover them.

use std::collections::{HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Call {
    Avail, Wait, Win1, WinN, WinA, WinM, Adv, Reset,
    Push, PushS, PushI, PushSI, Ptr,
    Peek1, PeekN, PeekA, Take, TakeS, Move,
    Detach, Attach, Sync, Back, Set,
    Drop, Split2, Split3, FPoll, FDrop,
    FNew(FCall),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FCall { Win1, WinN, WinA, WinM, Push, PushS, Ptr, Peek1, PeekN, PeekA, Take, TakeS, Move }

impl FCall {
    pub fn call(self) -> Call {
        match self {
            FCall::Win1 => Call::Win1, FCall::WinN => Call::WinN, FCall::WinA => Call::WinA, FCall::WinM => Call::WinM,
            FCall::Push => Call::Push, FCall::PushS => Call::PushS, FCall::Ptr => Call::Ptr,
            FCall::Peek1 => Call::Peek1, FCall::PeekN => Call::PeekN, FCall::PeekA => Call::PeekA,
            FCall::Take => Call::Take, FCall::TakeS => Call::TakeS, FCall::Move => Call::Move,
        }
    }
    fn parse(s: &str) -> Option<Self> {
        Some(match s {
            "win1" => Self::Win1, "winN" => Self::WinN, "winA" => Self::WinA, "winM" => Self::WinM,
            "push" => Self::Push, "pushS" => Self::PushS, "ptr" => Self::Ptr,
            "peek1" => Self::Peek1, "peekN" => Self::PeekN, "peekA" => Self::PeekA,
            "take" => Self::Take, "takeS" => Self::TakeS, "move" => Self::Move,
            _ => return None,
        })
    }
}

impl Call {
    pub fn parse(s: &str) -> Call {
        if let Some(f) = s.strip_prefix("fnew:") {
            return Call::FNew(FCall::parse(f).unwrap());
        }
        if let Some(f) = FCall::parse(s) {
            return f.call();
        }
        match s {
            "avail" => Call::Avail, "wait" => Call::Wait, "adv" => Call::Adv, "reset" => Call::Reset,
            "pushI" => Call::PushI, "pushSI" => Call::PushSI,
            "detach" => Call::Detach, "attach" => Call::Attach, "sync" => Call::Sync, "back" => Call::Back, "set" => Call::Set,
            "drop" => Call::Drop, "split2" => Call::Split2, "split3" => Call::Split3,
            "fpoll" => Call::FPoll, "fdrop" => Call::FDrop,
            _ => panic!("unknown call {s}"),
        }
    }
    pub fn name(self) -> String {
        match self {
            Call::FNew(f) => format!("fnew:{}", f.call().name()),
            c => {
                let s = format!("{c:?}");
                s[..1].to_lowercase() + &s[1..]
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct State {
    pub idx: [usize; 3],
    pub published: [usize; 3],
    pub det: [bool; 3],
    pub alive: [bool; 3],
    pub worker: bool,
    pub occ: Vec<bool>,
    pub fut: [Option<(FCall, usize)>; 3],
    pub avail: [usize; 3],
    pub out: Vec<u32>,
}

impl State {
    /// The pending future of the role could complete now.
    pub fn ready(&self, r: usize) -> bool {
        let Some((f, n)) = self.fut[r] else { return false };
        let a = self.avail[r];
        match f {
            FCall::WinA => a > 0,
            FCall::WinM => a >= n,
            FCall::PeekA => true,
            _ => n <= a,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub src: u32,
    pub dst: u32,
    /// 0..=2, or 3: the buffer
    pub role: usize,
    pub call: Call,
    pub n: usize,
    pub ok: bool,
    pub cnt: usize,
}

pub struct Graph {
    pub states: Vec<State>,
    pub edges: Vec<Edge>,
    pub len: usize,
    /// edges that belong to a choice of the specification which the walks do not take
    pub alternatives: usize,
    pub alt: HashMap<(u32, Call), Vec<u32>>,
}

fn tokens(line: &str) -> Vec<&str> {
    // numbers, words, "<<" and ">>"
    let mut out = vec![];
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'<' => { out.push("<<"); i += 2; }
            b'>' => { out.push(">>"); i += 2; }
            c if c.is_ascii_alphanumeric() => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b':') { i += 1; }
                out.push(&line[s..i]);
            }
            _ => i += 1,
        }
    }
    out
}

struct Tok<'a>(Vec<&'a str>, usize);
impl<'a> Tok<'a> {
    fn next(&mut self) -> &'a str { self.1 += 1; self.0[self.1 - 1] }
    fn num(&mut self) -> usize { self.next().parse().unwrap() }
    fn open(&mut self) { assert_eq!(self.next(), "<<"); }
    fn close(&mut self) { assert_eq!(self.next(), ">>"); }
    fn seq(&mut self) -> Vec<&'a str> {
        self.open();
        let mut v = vec![];
        loop {
            match self.next() { ">>" => return v, t => v.push(t) }
        }
    }
    fn key(&mut self) -> (String, State) {
        let from = self.1;
        self.open();
        let mut n = [0; 12];
        for x in &mut n { *x = self.num(); }
        let slots: Vec<usize> = self.seq().iter().map(|t| t.parse().unwrap()).collect();
        let mut occ = vec![];
        let mut hole = slots[1] == 1;
        let mut ends = slots[2..].iter().peekable();
        for i in 0..slots[0] {
            if ends.next_if_eq(&&i).is_some() { hole = !hole; }
            occ.push(!hole);
        }
        let mut fut = [None; 3];
        for f in &mut fut {
            let s = self.seq();
            if !s.is_empty() { *f = Some((FCall::parse(s[0]).unwrap(), s[1].parse().unwrap())); }
        }
        self.close();
        let bits = |x: usize| [x & 1 != 0, x & 2 != 0, x & 4 != 0];
        let key = self.0[from..self.1].concat_sep();
        (key, State {
            idx: [n[0], n[1], n[2]], published: [n[3], n[4], n[5]],
            det: bits(n[9]), alive: bits(n[10]), worker: n[11] != 0, occ, fut, avail: [0; 3], out: vec![],
        })
    }
}
trait ConcatSep { fn concat_sep(&self) -> String; }
impl ConcatSep for [&str] { fn concat_sep(&self) -> String { self.join(",") } }

impl Graph {
    pub fn parse(text: &str) -> Graph {
        let mut ids: HashMap<String, u32> = HashMap::new();
        let mut g = Graph { states: vec![], edges: vec![], len: 0, alternatives: 0, alt: HashMap::new() };
        let mut by_op: HashMap<(u32, usize, Call, usize), Vec<usize>> = HashMap::new();
        for line in text.lines() {
            if !line.starts_with("\"<<\\\"E\\\"") { continue; }
            let mut t = Tok(tokens(line), 0);
            t.open();
            assert_eq!(t.next(), "E");
            let (k1, s1) = t.key();
            let op = t.seq();
            let (k2, s2) = t.key();
            let av: Vec<usize> = t.seq().iter().map(|x| x.parse().unwrap()).collect();
            t.close();
            g.len = s1.occ.len();
            let mut id = |k, s, g: &mut Graph| *ids.entry(k).or_insert_with(|| { g.states.push(s); g.states.len() as u32 - 1 });
            let src = id(k1, s1, &mut g);
            let dst = id(k2, s2, &mut g);
            g.states[dst as usize].avail = [av[0], av[1], av[2]];
            let e = Edge {
                src, dst,
                role: match op[0] { "P" => 0, "W" => 1, "C" => 2, _ => 3 },
                call: Call::parse(op[1]), n: op[2].parse().unwrap(), ok: op[3] == "TRUE", cnt: op[4].parse().unwrap(),
            };
            by_op.entry((src, e.role, e.call, e.n)).or_default().push(g.edges.len());
            g.edges.push(e);
        }
        // Choices (splits): prefer to keep the published positions, the worker starting at the consumer
        let mut keep = vec![true; g.edges.len()];
        for v in by_op.values() {
            if v.len() == 1 { continue; }
            let src = &g.states[g.edges[v[0]].src as usize];
            let score = |e: usize| {
                let d = &g.states[g.edges[e].dst as usize];
                (d.published[0] == src.published[0] && d.published[2] == src.published[2]) as u32 * 2
                    + (if d.worker { d.published[1] == d.published[2] } else { d.published[1] == src.published[1] }) as u32
            };
            let best = *v.iter().max_by_key(|e| score(**e)).unwrap();
            for e in v {
                if *e != best { keep[*e] = false; }
                g.alt.entry((g.edges[*e].src, g.edges[*e].call)).or_default().push(g.edges[*e].dst);
            }
        }
        // What can still be reached from the initial state (the first one)
        let mut reach = vec![false; g.states.len()];
        let mut todo = vec![0u32];
        let mut out: Vec<Vec<usize>> = vec![vec![]; g.states.len()];
        for (i, e) in g.edges.iter().enumerate() { if keep[i] { out[e.src as usize].push(i); } }
        while let Some(s) = todo.pop() {
            if std::mem::replace(&mut reach[s as usize], true) { continue; }
            todo.extend(out[s as usize].iter().map(|e| g.edges[*e].dst));
        }
        let all = g.edges.len();
        let edges = std::mem::take(&mut g.edges);
        g.edges = edges.into_iter().zip(keep).filter(|(e, k)| *k && reach[e.src as usize]).map(|(e, _)| e).collect();
        g.alternatives = all - g.edges.len();
        for (i, e) in g.edges.iter().enumerate() { g.states[e.src as usize].out.push(i as u32); }
        g
    }

    /// Leaves out the edges into states without successors, but for `keep` of them.
    pub fn prune(&mut self, keep: usize, seed: u64) {
        let mut dead: Vec<u32> = (0..self.edges.len() as u32).filter(|e| self.states[self.edges[*e as usize].dst as usize].out.is_empty()).collect();
        if dead.len() <= keep { return; }
        Rng::new(seed).shuffle(&mut dead);
        let gone: std::collections::HashSet<u32> = dead.drain(keep..).collect();
        for s in &mut self.states { s.out.retain(|e| !gone.contains(e)); }
        self.alternatives += gone.len();
    }

    /// Paths from the initial state, of at most `max` edges, that together take every edge;
    /// then `random` random ones of length `rlen`.
    pub fn walks(&self, max: usize, random: usize, rlen: usize, seed: u64) -> (Vec<Vec<u32>>, usize) {
        let mut rng = Rng::new(seed);
        let mut open: Vec<Vec<u32>> = self.states.iter().map(|s| s.out.clone()).collect();
        for o in &mut open { rng.shuffle(o); }
        let mut left: usize = open.iter().map(|o| o.len()).sum();
        let mut paths = vec![];
        while left > 0 {
            let mut path = vec![];
            let mut at = 0u32;
            loop {
                if let Some(e) = open[at as usize].pop() {
                    path.push(e);
                    left -= 1;
                    at = self.edges[e as usize].dst;
                } else {
                    // the way to the nearest state with an edge not taken yet
                    let Some(way) = self.way(at, &open, &mut rng) else { break };
                    if !path.is_empty() && path.len() + way.len() >= max { break; }
                    for e in way { path.push(e); at = self.edges[e as usize].dst; }
                }
                if path.len() >= max { break; }
            }
            paths.push(path);
        }
        let cover = paths.len();
        for _ in 0..random {
            let mut path = vec![];
            let mut at = 0u32;
            while path.len() < rlen {
                let out = &self.states[at as usize].out;
                if out.is_empty() { break; }
                let e = out[rng.below(out.len())];
                path.push(e);
                at = self.edges[e as usize].dst;
            }
            paths.push(path);
        }
        (paths, cover)
    }

    fn way(&self, from: u32, open: &[Vec<u32>], _: &mut Rng) -> Option<Vec<u32>> {
        let mut prev: HashMap<u32, u32> = HashMap::new();
        let mut q = VecDeque::from([from]);
        while let Some(s) = q.pop_front() {
            if !open[s as usize].is_empty() {
                let mut way = vec![];
                let mut at = s;
                while at != from {
                    let e = prev[&at];
                    way.push(e);
                    at = self.edges[e as usize].src;
                }
                way.reverse();
                return Some(way);
            }
            for e in &self.states[s as usize].out {
                let d = self.edges[*e as usize].dst;
                if d != from && !prev.contains_key(&d) {
                    prev.insert(d, *e);
                    q.push_back(d);
                }
            }
        }
        None
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        if self.0 == 0 { self.0 = 1; }
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, n: usize, of: usize) -> bool { self.below(of) < n }
    pub fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() { v.swap(i, self.below(i + 1)); }
    }
}
