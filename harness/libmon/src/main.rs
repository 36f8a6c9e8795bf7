//! Runs monitored cases of one property. Driven by /verif/run.py.
#![allow(dead_code, unused_variables, clippy::all)]
mod alloc;
mod core;
mod golden;
mod model;
mod props_a;
mod props_b;
mod props_c;
mod props_d;
mod refcodec;

use crate::core::*;
use serde_json::json;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static GLOBAL: alloc::Limiter = alloc::Limiter;

fn kinds(prop: &str) -> &'static [Kind] {
    match prop {
        "C01" => props_a::C01,
        "C02" => props_a::C02,
        "C03" => props_b::C03,
        "C04" => props_b::C04,
        "C05" => props_a::C05,
        "C06" => props_b::C06,
        "C07" => props_c::C07,
        "C08" => props_c::C08,
        "C09" => props_c::C09,
        "C10" => props_c::C10,
        "C11" => props_c::C11,
        "C12" => props_c::C12,
        "C13" => props_d::C13,
        "C14" => props_d::C14,
        "C15" => props_d::C15,
        "C16" => props_d::C16,
        p => {
            eprintln!("no property {p}");
            std::process::exit(3)
        }
    }
}

/// decoders run with an ordinary thread's stack
fn stack() -> usize {
    if cfg!(feature = "plain_alloc") { 32 << 20 } else { 2 << 20 }
}

fn worker(a: &[String]) -> i32 {
    let [prop, seed, tier, shard, nshards, out, cap, scale] = a else { return 3 };
    let seed: u64 = seed.parse().expect("seed");
    let (shard, nshards): (u64, u64) = (shard.parse().expect("shard"), nshards.parse().expect("shards"));
    let cap = Duration::from_secs_f64(cap.parse().expect("cap"));
    let scale: f64 = scale.parse().expect("scale");
    let ks = kinds(prop);
    let total = |k: &Kind| {
        let n = if tier == "thorough" { k.thorough } else { k.quick };
        ((n as f64 * scale).ceil() as u64).max(1)
    };
    let cur = std::fs::File::create(format!("{out}/cur{shard}")).expect("cur");
    let mut ctx = Ctx::default();
    let mut viol = vec![];
    let mut harness = vec![];
    let mut per: std::collections::BTreeMap<&str, u64> = Default::default();
    let start = Instant::now();
    let mut n = 0_u64;
    let mut capped = false;
    const ROUNDS: u64 = 50;
    'all: for round in 0..ROUNDS {
        for k in ks {
            let t = total(k);
            let (lo, hi) = (t * round / ROUNDS, t * (round + 1) / ROUNDS);
            for idx in lo..hi {
                if idx % nshards != shard {
                    continue;
                }
                if n % 16 == 0 && start.elapsed() > cap {
                    capped = true;
                    break 'all;
                }
                n += 1;
                let line = format!("{n} {} {idx}\n", k.name);
                let _ = cur.write_at(format!("{line:<64}").as_bytes(), 0);
                *per.entry(k.name).or_default() += 1;
                match run_case(&mut ctx, prop, k, idx, seed) {
                    Outcome::Ok => {}
                    Outcome::Violation(m) => viol.push(json!({"kind": k.name, "idx": idx, "msg": m})),
                    Outcome::Harness(m) => harness.push(json!({"kind": k.name, "idx": idx, "msg": m})),
                }
                if viol.len() >= 5 || harness.len() >= 5 {
                    break 'all;
                }
            }
        }
    }
    let _ = cur.write_at(format!("{:<64}", format!("{} done 0\n", n + 1)).as_bytes(), 0);
    let mut h: Vec<u64> = ctx.seen.iter().copied().collect();
    h.sort_unstable();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/seen{shard}")).expect("seen"));
    for x in h {
        f.write_all(&x.to_le_bytes()).expect("seen");
    }
    f.flush().expect("seen");
    let j = json!({
        "evals": ctx.evals, "counters": ctx.counters, "maxima": ctx.maxima, "samples": ctx.samples,
        "known": ctx.known, "violations": viol, "harness": harness, "capped": capped, "per_kind": per,
        "secs": start.elapsed().as_secs_f64(),
    });
    std::fs::write(format!("{out}/shard{shard}.json"), j.to_string()).expect("shard");
    0
}

fn replay(a: &[String]) -> i32 {
    let [prop, kind, idx, seed] = a else { return 3 };
    let idx: u64 = idx.parse().expect("idx");
    let seed: u64 = seed.parse().expect("seed");
    let Some(k) = kinds(prop).iter().find(|k| k.name == kind) else { return 3 };
    let mut ctx = Ctx { replaying: true, ..Ctx::default() };
    match run_case(&mut ctx, prop, k, idx, seed) {
        Outcome::Ok => {
            println!("held: {prop} {kind} {idx}; known {:?}", ctx.known);
            0
        }
        Outcome::Violation(m) => {
            println!("violated: {prop} {kind} {idx}: {m}");
            1
        }
        Outcome::Harness(m) => {
            println!("{m}");
            3
        }
    }
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let t = std::thread::Builder::new()
        .stack_size(stack())
        .spawn(move || match args.first().map(String::as_str) {
            Some("worker") => worker(&args[1..]),
            Some("replay") => replay(&args[1..]),
            Some("golden") => {
                golden::record(args[1].parse().expect("n"), args[2].parse().expect("seed"));
                0
            }
            _ => 3,
        })
        .expect("thread");
    let code = t.join().unwrap_or_else(|_| {
        eprintln!("harness: {}", "worker thread panicked");
        3
    });
    std::process::exit(code);
}
