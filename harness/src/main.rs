//! Runtime monitors for perf-event-data.  `pedmon <property> [options]` runs the workload of one
//! property under its monitors and prints one JSON report line.

#![allow(dead_code)]

mod alloc;
mod bufs;
mod checks;
mod crash;
mod gens;
mod kf;
mod model;
mod obs;
mod refdec;
mod run;
mod util;

// the interpreter finds leaks itself
#[cfg_attr(not(miri), global_allocator)]
static ALLOC: alloc::MonAlloc = alloc::MonAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let spec = match checks::SPECS.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {id:?}");
            std::process::exit(2);
        }
    };
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str| opt(k).map(|v| v.parse::<u64>().unwrap_or_else(|_| panic!("bad value for {k}")));
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let o = run::Opts {
        seed: num("--seed").unwrap_or(1),
        thorough,
        cases: num("--cases").unwrap_or(if thorough { spec.thorough } else { spec.quick }),
        first: num("--first").unwrap_or(0),
        threads: num("--threads").unwrap_or(8) as usize,
        one: num("--case"),
        stop_s: num("--stop").unwrap_or(0) as f64,
    };
    let digest = args.iter().any(|a| a == "--digest");
    if digest {
        util::set_small();
    }
    crash::install();
    let rep = run::run(spec.f, &o);
    if digest {
        let mut s = String::new();
        for (n, i, d) in &rep.ctx.digests {
            s.push_str(&format!("DIGEST {n} {i:016x} {d:016x}\n"));
        }
        print!("{s}");
    }
    let mut j = rep.json();
    j.pop();
    j.push_str(&format!(",\"property\":\"{}\",\"rule\":\"{}\"}}", spec.id, util::json_escape(spec.rule)));
    println!("REPORT {j}");
    if rep.viol.is_some() {
        std::process::exit(1);
    }
}
