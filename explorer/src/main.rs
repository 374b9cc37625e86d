//! Runs small concurrent programs on the real buffer under the schedules and memory outcomes the model allows.
//!
//! `explorer programs=FILE out=FILE seed=N dfs=N random=N keep=N jobs=N`

mod co;
mod mem;
mod proc;
mod prog;
mod rt;

use rt::{Dfs, End, Plan};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) } }
pub fn panic_text() -> String { PANIC.with(|p| p.borrow().clone()) }
pub fn panic_peek() -> String { panic_text() }

/// What each thread saw its calls return.
fn outcome(line: &str) -> u64 {
    let mut of = [0u64; 4];
    for e in line.split("],[\"") {
        if !e.starts_with(['E', 'V', 'p', 'f', 'Q']) { continue; }
        let Some(t) = e.get(3..4).and_then(|t| t.parse::<usize>().ok()) else { continue };
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (of[t % 4], e).hash(&mut h);
        of[t % 4] = h.finish();
    }
    of.iter().fold(0, |a, x| a.rotate_left(7) ^ x)
}

fn main() {
    let arg = |k: &str| std::env::args().find_map(|a| a.strip_prefix(&format!("{k}=")).map(String::from));
    let num = |k: &str, d: usize| arg(k).map_or(d, |v| v.parse().unwrap());
    let programs: Vec<prog::Program> = std::fs::read_to_string(arg("programs").unwrap()).unwrap()
        .lines().filter(|l| !l.is_empty()).map(prog::Program::parse).collect();
    let (dfs_max, random, seed) = (num("dfs", 2000), num("random", 200), num("seed", 1));
    // per program; less of it once half of the time for all of them (seconds), or all of it, is gone
    let (ms, total) = (num("ms", 3000) as u64, num("total", 1_000_000) as u64);
    let begin = std::time::Instant::now();
    mutringbuf::verif_hooks::install(&rt::RUNTIME);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if s.contains("HARNESS") { eprintln!("{s}"); }
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let next = proc::Shared::new(1);
    let body = |child: &proc::Child| {
        mem::install();
        let mut first = child.resume().map(|r| r.0);
        loop {
            // after a crash: the next program
            let _ = first.take();
            let i = next.add(0, 1) as usize;
            if i >= programs.len() { return; }
            let p = &programs[i];
            let start = std::time::Instant::now();
            let gone = begin.elapsed().as_secs();
            let budget = std::time::Duration::from_millis(if gone > total { ms / 30 } else if gone > total / 2 { ms / 4 } else { ms });
            let mut seen = HashSet::new();
            let mut lines: Vec<(bool, String)> = vec![];
            let (mut execs, mut distinct, mut redundant, mut susp) = (0u64, 0u64, 0u64, 0u64);
            let mut collect = |end: End, s: bool, lines: &mut Vec<(bool, String)>| {
                execs += 1;
                if end == End::Redundant { redundant += 1; return; }
                let r = rt::rt();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                r.ev.hash(&mut h);
                if !seen.insert(h.finish()) { return; }
                distinct += 1;
                susp += s as u64;
                let e = r.ev.trim_end_matches(',');
                let line = format!("{{\"p\":{i},\"L\":{},\"w\":{},\"sc\":{},\"nb\":{},\"v\":{},\"x\":{},\"e\":[{e}]}}", p.l, p.worker, p.latest_only, r.blocks, p.victim, execs);
                if s || lines.len() < 20_000 { lines.push((s, line)); }
            };
            let mut d = Dfs::new(!p.asy);
            let mut n = 0;
            child.progress(i, 0, 0);
            // a mirrored buffer cannot be that small
            let skip = cfg!(feature = "vmem") && { let (end, _) = prog::run(p, &mut Plan::Random(1)); end == End::Skip };
            if skip { child.out(&format!("#{{\"p\":{i},\"skip\":true}}\n")); continue; }
            for each in if p.victim > 0 { 1..4 } else { 0..0 } {
                child.progress(i, 2, each);
                let (end, s) = prog::run(p, &mut Plan::Harass { victim: p.victim, each, taken: 0, seen: 0 });
                collect(end, s, &mut lines);
                d.finished = true;
            }
            while !d.finished && n < dfs_max && start.elapsed() < budget {
                child.progress(i, 0, n);
                let (end, s) = prog::run(p, &mut Plan::Dfs(&mut d));
                collect(end, s, &mut lines);
                d.advance();
                n += 1;
            }
            let complete = d.finished;
            let mut rng = rt::Rng(seed as u64 * 7919 + i as u64);
            if !complete {
                for k in 0..random {
                    if start.elapsed() > budget * 2 { break; }
                    child.progress(i, 1, k);
                    let (end, s) = prog::run(p, &mut Plan::Random(rng.next()));
                    collect(end, s, &mut lines);
                }
            }
            let keep = if complete { num("keep", 300) } else { num("akeep", 300) };
            // suspicious ones first, then a sample
            let mut pick: Vec<String> = vec![];
            let mut rest: Vec<String> = vec![];
            for (s, l) in lines { if s { if pick.len() < keep / 2 { pick.push(l) } } else { rest.push(l) } }
            // one of each outcome, then one more of each, ...
            let mut by: std::collections::BTreeMap<u64, Vec<String>> = Default::default();
            for l in rest { by.entry(outcome(&l)).or_default().push(l); }
            let mut by: Vec<_> = by.into_values().collect();
            while pick.len() < keep && !by.is_empty() {
                let mut i = rng.below(by.len());
                for _ in 0..by.len() {
                    if pick.len() == keep { break; }
                    let k = rng.below(by[i].len());
                    pick.push(by[i].swap_remove(k));
                    i = (i + 1) % by.len();
                }
                by.retain(|v| !v.is_empty());
            }
            for l in &pick { child.out(&format!("{l}\n")); }
            child.out(&format!("#{{\"p\":{i},\"execs\":{execs},\"distinct\":{distinct},\"redundant\":{redundant},\"susp\":{susp},\"complete\":{complete},\"kept\":{}}}\n", pick.len()));
        }
    };
    let (lines, crashes, _) = proc::pool(num("jobs", 8), 20_000, &body);
    let mut out = String::new();
    for l in &lines { out.push_str(l); }
    for c in crashes {
        out.push_str(&format!("!{{\"p\":{},\"kind\":\"{}\",\"msg\":\"{}\",\"random\":{},\"exec\":{}}}\n", c.task, c.kind, c.msg, c.item, c.step));
    }
    std::fs::write(arg("out").unwrap(), out).unwrap();
}
