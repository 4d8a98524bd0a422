//! sx: symbolic execution of LLVM IR with SMT solvers.
mod exec;
mod ext;
mod ir;
mod mem;
mod prove;
mod smt;
mod term;

use exec::*;
use std::collections::HashMap;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep recursion on terms
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut irs = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = Config {
        mode: smt::Mode::Bits,
        params: HashMap::new(),
        shard: (0, 1),
        max_steps: 20_000_000,
        time: 600.0,
        fork_fsel: false,
        preempt_bound: 2,
        sched: false,
        qms: 2000,
        max_samples: 6,
        verbose: false,
    };
    let mut filter = "9advantage".to_string();
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ir" => irs.push(nx()),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--mode" => {
                cfg.mode = match nx().as_str() {
                    "real" => smt::Mode::Real,
                    "fp" => smt::Mode::Fp,
                    _ => smt::Mode::Bits,
                }
            }
            "--param" => {
                let s = nx();
                let (k, v) = s.split_once('=').unwrap();
                cfg.params.insert(k.to_string(), v.parse().unwrap());
            }
            "--shard" => {
                let s = nx();
                let (k, v) = s.split_once('/').unwrap();
                cfg.shard = (k.parse().unwrap(), v.parse().unwrap());
            }
            "--time" => cfg.time = nx().parse().unwrap(),
            "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--preempt" => {
                cfg.preempt_bound = nx().parse().unwrap();
                cfg.sched = true;
            }
            "--qms" => cfg.qms = nx().parse().unwrap(),
            "--samples" => cfg.max_samples = nx().parse().unwrap(),
            "--filter" => filter = nx(),
            "--fork-fsel" => {
                cfg.fork_fsel = true;
                i += 1;
                continue;
            }
            "-v" => {
                cfg.verbose = true;
                i += 1;
                continue;
            }
            a => panic!("argument {}", a),
        }
        i += 2;
    }
    let verbose = cfg.verbose;
    let t0 = std::time::Instant::now();
    let p = ir::Prog::load(&irs);
    let fid = match p.global.borrow().get(&entry) {
        Some(ir::Sym::F(f)) => *f,
        _ => {
            eprintln!("no entry {}", entry);
            std::process::exit(3);
        }
    };
    let tload = t0.elapsed().as_secs_f64();
    let mut ex = Exec::new(&p, cfg);
    ex.t0 = std::time::Instant::now();
    ex.run(fid);
    let wall = ex.t0.elapsed().as_secs_f64();
    let mut fl: Vec<String> = ex
        .funcs
        .keys()
        .map(|f| p.funcs.borrow()[*f as usize].name.clone())
        .filter(|n| n.contains(&filter) || n.contains("N3adv") || n.starts_with("adv_"))
        .collect();
    fl.sort();
    fl.dedup();
    let mut o = String::from("{\n");
    let unknown: u64 = ex.labels.values().map(|l| l.unknown).sum();
    let status = if ex.cexs.iter().any(|c| c.confirmed) {
        "violation"
    } else if !ex.cexs.is_empty() {
        "candidate"
    } else if !ex.unsup.is_empty() || ex.timed_out || unknown > 0 {
        "incomplete"
    } else {
        "ok"
    };
    o.push_str(&format!("\"status\": {},\n\"entry\": {},\n", js(status), js(&entry)));
    o.push_str(&format!(
        "\"paths\": {}, \"assumed_away\": {}, \"forks\": {}, \"steps\": {}, \"timed_out\": {}, \"wall\": {:.3}, \"load\": {:.3},\n",
        ex.paths, ex.ended, ex.forks, ex.total_steps, ex.timed_out, wall, tload
    ));
    let s = &ex.sol.stats;
    o.push_str(&format!(
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3}, \"feas_unknown\": {},\n",
        s.queries, s.sat, s.unsat, s.unknown, s.cached, s.time, s.maxtime, ex.unknown_feas
    ));
    o.push_str("\"labels\": {");
    let v: Vec<String> = ex
        .labels
        .iter()
        .map(|(k, l)| {
            format!(
                "\n {}: {{\"checked\": {}, \"trivial\": {}, \"unsat\": {}, \"sat\": {}, \"unknown\": {}}}",
                js(k),
                l.checked,
                l.trivial,
                l.unsat,
                l.sat,
                l.unknown
            )
        })
        .collect();
    o.push_str(&v.join(","));
    o.push_str("},\n\"reached\": {");
    let v: Vec<String> = ex.reached.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    o.push_str(&v.join(", "));
    o.push_str("},\n\"unsupported\": {");
    let v: Vec<String> = ex.unsup.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    o.push_str(&v.join(", "));
    o.push_str("},\n\"cex\": [");
    let v: Vec<String> = ex
        .cexs
        .iter()
        .map(|c| {
            format!(
                "\n {{\"label\": {}, \"msg\": {}, \"confirmed\": {}, \"inputs\": {}}}",
                js(&c.label),
                js(&c.msg),
                c.confirmed,
                c.inputs.as_ref().map(|s| js(s)).unwrap_or("null".into())
            )
        })
        .collect();
    o.push_str(&v.join(","));
    o.push_str("],\n\"samples\": [");
    let v: Vec<String> = ex
        .samples
        .iter()
        .map(|(i, ob)| format!("\n {{\"inputs\": {}, \"obs\": [{}]}}", js(i), ob.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")))
        .collect();
    o.push_str(&v.join(","));
    o.push_str("],\n\"functions\": [");
    let v: Vec<String> = fl.iter().map(|f| js(f)).collect();
    o.push_str(&v.join(", "));
    o.push_str("]\n}\n");
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    if verbose {
        eprintln!("{} paths={} queries={} solver={:.1}s wall={:.1}s", status, ex.paths, ex.sol.stats.queries, ex.sol.stats.time, wall);
    }
}
