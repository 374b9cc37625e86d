//! Binds the TLA+ specification of the ring (../spec) to the real crate.

mod alloc;
mod ctor;
mod graph;
mod items;
mod proc;
mod replay;
mod small;
mod sys;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    for a in &args[1..] {
        let (k, v) = a.split_once('=').unwrap_or((a, "1"));
        opt.insert(k.into(), v.into());
    }
    let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().unwrap());
    match args[0].as_str() {
        "replay" => {
            if opt.contains_key("small") && !small::pretend() {
                println!("NOT-SMALL");
                return;
            }
            let mut g = graph::Graph::parse(&std::fs::read_to_string(&opt["graph"]).unwrap());
            assert!(!g.edges.is_empty(), "empty graph");
            let profiles: Vec<replay::Profile> = opt["profiles"].split(',').map(replay::Profile::parse).collect();
            let seed = num("seed", 1);
            g.prune(num("prune", u64::MAX) as usize, seed);
            let (paths, cover) = g.walks(num("max", 60) as usize, num("random", 0) as usize, num("rlen", 200) as usize, seed);
            let job = replay::Job { g: &g, profiles: &profiles, paths: &paths, seed, name: &opt["name"], alike: num("alike", 0) == 1 };
            if let Some(path) = opt.get("only") {
                // one path, in this process
                let path: usize = path.parse().unwrap();
                for (i, p) in profiles.iter().enumerate() {
                    let s = seed.wrapping_mul(1_000_003).wrapping_add(path as u64);
                    let _ = i;
                    println!("{} {}", p.name(), replay::ops(&g, &paths[path]));
                    let salt = if job.alike { p.item.clone() } else { p.name() }.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
                    match replay::run(&g, p, &paths[path], s, salt, num("probe", 0) == 1, &|_| ()) {
                        Ok((h, d)) => println!("as specified ({h:x} diverted={d})"),
                        Err(m) => println!("MISMATCH at step {}: {}: {}", m.step, m.kind, m.msg),
                    }
                }
                return;
            }
            let (lines, runs, steps, diverted) = job.run(num("jobs", 8) as usize, num("timeout", 10000));
            let mut calls: HashMap<String, usize> = HashMap::new();
            for e in &g.edges { *calls.entry(format!("{}.{}", ["P", "W", "C", "B"][e.role], e.call.name())).or_default() += 1; }
            let mut calls: Vec<_> = calls.into_iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            calls.sort();
            let mut out = format!("{{\"config\":\"{}\",\"states\":{},\"edges\":{},\"alternatives\":{},\"paths\":{},\"cover_paths\":{},\"profiles\":{},\"runs\":{},\"steps\":{},\"diverted\":{},\"calls\":{{{}}},\"sample\":{},\"mismatches\":[\n",
                opt["name"], g.states.len(), g.edges.len(), g.alternatives, paths.len(), cover, profiles.len(), runs, steps, diverted, calls.join(","), replay::ops(&g, &paths[0]));
            out += &lines.iter().map(|l| l.trim_end().to_string()).collect::<Vec<_>>().join(",\n");
            out += "]}\n";
            std::fs::write(&opt["out"], out).unwrap();
        }
        "build" => ctor::table(),
        c => panic!("unknown command {c}"),
    }
}
