//! Runs monitored cases of one property. Driven by /verif/run.py.
#![allow(dead_code, unused_variables, clippy::all)]

#[path = "../../libmon/src/core.rs"]
mod core;
#[path = "../../libmon/src/model.rs"]
mod model;
#[path = "../../libmon/src/refcodec.rs"]
mod refcodec;
#[path = "../../libmon/src/alloc.rs"]
mod alloc;
#[path = "../../libmon/src/props_b.rs"]
mod props_b;
mod d1;
mod d2;
mod d3;
#[cfg(feature = "clients")]
mod d4;
mod d5;
mod d6;
#[cfg(feature = "clients")]
mod d7;
mod daemon;
mod gen;
mod http;
mod lin;
mod spec;

use crate::core::*;
use serde_json::json;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};


fn kinds(prop: &str) -> &'static [Kind] {
    match prop {
        "D01" => d1::D01,
        "D02" => d1::D02,
        "D03" => d2::D03,
        "D04" => d2::D04,
        "D05" => d2::D05,
        "D06" => d3::D06,
        "D07" => d3::D07,
        #[cfg(feature = "clients")]
        "D08" => d4::D08,
        #[cfg(feature = "clients")]
        "C17" => d7::C17,
        "D09" => d6::D09,
        "M01" => d5::M01,
        p => {
            eprintln!("no property {p}");
            std::process::exit(3)
        }
    }
}

/// decoders run with an ordinary thread's stack
fn stack() -> usize {
    8 << 20
}

fn worker(a: &[String]) -> i32 {
    let [prop, seed, tier, shard, nshards, out, cap, scale] = a else { return 3 };
    let seed: u64 = seed.parse().expect("seed");
    let (shard, nshards): (u64, u64) = (shard.parse().expect("shard"), nshards.parse().expect("shards"));
    let cap = Duration::from_secs_f64(cap.parse().expect("cap"));
    let scale: f64 = scale.parse().expect("scale");
    let ks = kinds(prop);
    let total = |k: &Kind| {
        let n = if tier == "thorough" { k.thorough } else { k.quick };
        ((n as f64 * scale).ceil() as u64).max(1)
    };
    let cur = std::fs::File::create(format!("{out}/cur{shard}")).expect("cur");
    let mut ctx = Ctx::default();
    let mut viol = vec![];
    let mut harness = vec![];
    let mut per: std::collections::BTreeMap<&str, u64> = Default::default();
    let start = Instant::now();
    let mut n = 0_u64;
    let mut capped = false;
    const ROUNDS: u64 = 8;
    'all: for round in 0..ROUNDS {
        for k in ks {
            let t = total(k);
            let (lo, hi) = (t * round / ROUNDS, t * (round + 1) / ROUNDS);
            for idx in lo..hi {
                if idx % nshards != shard {
                    continue;
                }
                if start.elapsed() > cap {
                    capped = true;
                    break 'all;
                }
                n += 1;
                let line = format!("{n} {} {idx}\n", k.name);
                let _ = cur.write_at(format!("{line:<64}").as_bytes(), 0);
                *per.entry(k.name).or_default() += 1;
                match run_case(&mut ctx, prop, k, idx, seed) {
                    Outcome::Ok => {}
                    Outcome::Violation(m) => viol.push(json!({"kind": k.name, "idx": idx, "msg": m})),
                    Outcome::Harness(m) => harness.push(json!({"kind": k.name, "idx": idx, "msg": m})),
                }
                if viol.len() >= 5 || harness.len() >= 5 {
                    break 'all;
                }
            }
        }
    }
    let _ = cur.write_at(format!("{:<64}", format!("{} done 0\n", n + 1)).as_bytes(), 0);
    let mut h: Vec<u64> = ctx.seen.iter().copied().collect();
    h.sort_unstable();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/seen{shard}")).expect("seen"));
    for x in h {
        f.write_all(&x.to_le_bytes()).expect("seen");
    }
    f.flush().expect("seen");
    let j = json!({
        "evals": ctx.evals, "counters": ctx.counters, "maxima": ctx.maxima, "samples": ctx.samples,
        "known": ctx.known, "violations": viol, "harness": harness, "capped": capped, "per_kind": per,
        "secs": start.elapsed().as_secs_f64(),
    });
    std::fs::write(format!("{out}/shard{shard}.json"), j.to_string()).expect("shard");
    0
}

fn replay(a: &[String]) -> i32 {
    let [prop, kind, idx, seed] = a else { return 3 };
    let idx: u64 = idx.parse().expect("idx");
    let seed: u64 = seed.parse().expect("seed");
    let Some(k) = kinds(prop).iter().find(|k| k.name == kind) else { return 3 };
    let mut ctx = Ctx { replaying: true, ..Ctx::default() };
    match run_case(&mut ctx, prop, k, idx, seed) {
        Outcome::Ok => {
            println!("held: {prop} {kind} {idx}; known {:?}", ctx.known);
            0
        }
        Outcome::Violation(m) => {
            println!("violated: {prop} {kind} {idx}: {m}");
            1
        }
        Outcome::Harness(m) => {
            println!("{m}");
            3
        }
    }
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let t = std::thread::Builder::new()
        .stack_size(stack())
        .spawn(move || match args.first().map(String::as_str) {
            Some("worker") => worker(&args[1..]),
            Some("replay") => replay(&args[1..]),
            _ => 3,
        })
        .expect("thread");
    let code = t.join().unwrap_or_else(|_| {
        eprintln!("harness: {}", "worker thread panicked");
        3
    });
    std::process::exit(code);
}
