//! Case runner: deterministic cases spread over worker threads, counters, verdict, JSON report.

use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

pub struct Viol {
    pub what: String,
    pub detail: String,
}

pub fn viol<T>(what: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { what: what.into(), detail: detail.into() })
}

#[derive(Default)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub evals: u64,
    pub sigs: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max: BTreeMap<String, u64>,
    /// case, hash of its inputs, hash of its outcomes
    pub digests: Vec<(u64, u64, u64)>,
    pub tick: u64,
    /// discrepancies that are exactly the known finding KF1
    pub known: u64,
    /// things set up once and kept (see `leak_repeats`), in this thread
    pub kept: u32,
}

/// Judges a case whose memory balance counts.  A leak shows again when the case is repeated.  Memory
/// that is still there after the first run only is something set up once and kept (a lazily built
/// table, say), which is nobody's leak; but that cannot go on happening.
pub fn leak_repeats(f: CaseFn, n: u64, ctx: &mut Ctx) -> Result<(), Viol> {
    match f(n, ctx) {
        Err(v) if v.what.contains("allocated") && ctx.kept < 4 => {
            for _ in 0..3 {
                f(n, ctx)?;
            }
            ctx.kept += 1;
            ctx.n("kept_after_first_use");
            Ok(())
        }
        r => r,
    }
}

impl Ctx {
    /// One observation judged by an oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Signature of a non-trivial judged execution.
    pub fn sig(&mut self, h: u64) {
        // bounded: beyond this the count is a lower bound
        if self.sigs.len() < 4_000_000 {
            self.sigs.insert(h);
        }
    }
    pub fn known(&mut self) {
        self.known += 1;
    }
    pub fn n(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, v: u64) {
        match self.counts.get_mut(k) {
            Some(x) => *x += v,
            None => {
                self.counts.insert(k.to_string(), v);
            }
        }
    }
    pub fn peak(&mut self, k: &str, v: u64) {
        let e = self.max.entry(k.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 || self.verbose {
            let s = f();
            if self.verbose {
                println!("  {s}");
            }
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

pub type CaseFn = fn(u64, &mut Ctx) -> Result<(), Viol>;

pub struct Report {
    pub ctx: Ctx,
    pub cases: u64,
    pub viol: Option<(u64, Viol)>,
    pub threads: usize,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub cases: u64,
    pub first: u64,
    pub threads: usize,
    pub one: Option<u64>,
    pub stop_s: f64,
}

pub fn run(f: CaseFn, o: &Opts) -> Report {
    let mut ctx = Ctx { seed: o.seed, thorough: o.thorough, ..Default::default() };
    if let Some(n) = o.one {
        ctx.verbose = true;
        crate::crash::set_slot(0);
        crate::crash::set_case(n);
        let v = f(n, &mut ctx).err().map(|v| (n, v));
        return Report { ctx, cases: 1, viol: v, threads: 1 };
    }
    if o.threads <= 1 || cfg!(miri) {
        let mut v = None;
        let mut done = 0;
        for n in o.first..o.first + o.cases {
            crate::crash::set_case(n);
            if cfg!(miri) && n % 16 == 0 {
                eprintln!("at case={n}");
            }
            done += 1;
            if let Err(e) = f(n, &mut ctx) {
                v = Some((n, e));
                break;
            }
        }
        return Report { ctx, cases: done, viol: v, threads: 1 };
    }
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(o.first);
    let end = o.first + o.cases;
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
    let merged: Mutex<Ctx> = Mutex::new(ctx);
    let done = AtomicU64::new(0);
    let live = AtomicU64::new(o.threads as u64);
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (next, stop, found, merged, done, live) = (&next, &stop, &found, &merged, &done, &live);
            s.spawn(move || {
                crate::crash::set_slot(t);
                crate::crash::register_clock(t);
                let mut ctx = Ctx { seed: o.seed, thorough: o.thorough, ..Default::default() };
                'outer: loop {
                    let lo = next.fetch_add(16, SeqCst);
                    if lo >= end {
                        break;
                    }
                    for n in lo..(lo + 16).min(end) {
                        if stop.load(Relaxed) {
                            break 'outer;
                        }
                        crate::crash::set_case(n);
                        done.fetch_add(1, Relaxed);
                        if let Err(v) = f(n, &mut ctx) {
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map(|(m, _)| n < *m).unwrap_or(true) {
                                *g = Some((n, v));
                            }
                            stop.store(true, SeqCst);
                            break 'outer;
                        }
                        if o.stop_s > 0.0 && t0.elapsed().as_secs_f64() > o.stop_s {
                            break 'outer;
                        }
                    }
                }
                crate::crash::set_case(u64::MAX);
                let mut m = merged.lock().unwrap();
                m.evals += ctx.evals;
                m.known += ctx.known;
                m.sigs.extend(ctx.sigs);
                for (k, v) in ctx.counts {
                    *m.counts.entry(k).or_insert(0) += v;
                }
                for (k, v) in ctx.max {
                    let e = m.max.entry(k).or_insert(0);
                    *e = (*e).max(v);
                }
                m.samples.extend(ctx.samples);
                m.digests.extend(ctx.digests);
                live.fetch_sub(1, SeqCst);
            });
        }
        crate::crash::watchdog(o.threads, &live);
    });
    let mut ctx = merged.into_inner().unwrap();
    ctx.samples.truncate(6);
    ctx.digests.sort_unstable();
    Report { ctx, cases: done.into_inner(), viol: found.into_inner().unwrap(), threads: o.threads }
}

impl Report {
    pub fn json(&self) -> String {
        let c = &self.ctx;
        let mut s = String::from("{");
        s.push_str(&format!("\"cases\":{},\"evaluations\":{},\"distinct\":{},\"threads\":{},\"known\":{}", self.cases, c.evals, c.sigs.len(), self.threads, c.known));
        s.push_str(",\"counts\":{");
        s.push_str(&c.counts.iter().map(|(k, v)| format!("\"{}\":{}", json_escape(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"max\":{");
        s.push_str(&c.max.iter().map(|(k, v)| format!("\"{}\":{}", json_escape(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&c.samples.iter().map(|v| format!("\"{}\"", json_escape(v))).collect::<Vec<_>>().join(","));
        s.push_str("]");
        if let Some((n, v)) = &self.viol {
            s.push_str(&format!(",\"violation\":{{\"case\":{},\"what\":\"{}\",\"detail\":\"{}\"}}", n, json_escape(&v.what), json_escape(&v.detail)));
        }
        s.push('}');
        s
    }
}
