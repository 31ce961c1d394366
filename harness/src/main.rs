//! jmon: monitors for jpeg-encoder. See /verif/DESIGN.md.
#![cfg_attr(any(miri, not(feature = "galloc"), not(feature = "std")), allow(dead_code, unused_imports))]
mod alloc;
mod c_api;
mod c_misc;
mod c_stream;
mod c_tables;
mod case;
#[cfg(all(feature = "simd", target_arch = "x86_64", target_os = "linux", not(miri)))]
mod cpuid;
mod ctx;
mod dct;
mod dump;
#[cfg(feature = "fence")]
mod fence;
mod jpeg;
mod mem;
mod mips;
mod model;
mod qtables;
mod rng;
mod sink;
mod spec;
#[cfg(feature = "thirdparty")]
mod third;

use ctx::*;
use std::sync::atomic::Ordering::SeqCst;

#[cfg(feature = "galloc")]
#[global_allocator]
static A: alloc::Mon = alloc::Mon;
#[cfg(feature = "fence")]
#[global_allocator]
static A: fence::Fence = fence::Fence;

/// Print the evidence fragment and leave: 0 held, 1 violated.
pub fn finish(ctx: &Ctx) -> ! {
    let t = ctx.totals.lock().unwrap();
    let v = ctx.viol.lock().unwrap();
    let mut o = String::from("FRAGMENT {");
    o += &format!(
        "\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"skipped\":{},\"wall_s\":{:.3},\"build\":{}",
        json_str(&ctx.prop),
        ctx.seed.load(SeqCst),
        t.evals,
        t.distinct.len(),
        ctx.skipped.load(SeqCst),
        ctx.start.elapsed().as_secs_f64(),
        json_str(build_name())
    );
    o += ",\"counters\":{";
    o += &t.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"maxima\":{";
    o += &t.maxima.iter().map(|(k, v)| format!("{}:{:.4}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"distinct_seen\":{";
    o += &t.sets.iter().map(|(k, v)| format!("{}:{}", json_str(k), v.len())).collect::<Vec<_>>().join(",");
    o += "},\"samples\":[";
    o += &t.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"violations\":[";
    o += &v
        .iter()
        .map(|x| format!("{{\"seed\":{},\"tag\":{},\"idx\":{},\"what\":{},\"msg\":{}}}", x.seed, json_str(&x.tag), x.idx, json_str(&x.what), json_str(&x.msg)))
        .collect::<Vec<_>>()
        .join(",");
    o += "]}";
    println!("{}", o);
    std::process::exit(if v.is_empty() { 0 } else { 1 })
}

pub fn build_name() -> &'static str {
    if cfg!(feature = "simd") {
        if cfg!(debug_assertions) {
            "std+simd, checked"
        } else {
            "std+simd"
        }
    } else if cfg!(feature = "std") {
        "std"
    } else {
        "no_std"
    }
}

fn usage() -> ! {
    eprintln!("usage: jmon check Cxx|mem|memmini [--thorough] [--seed N] [--budget S] [--only tag:idx] [--rounds N] | dump LIST [--seed N] [--mini] [--thorough] [--reverse] | corpus DIR [--seed N] [--n N]");
    std::process::exit(2)
}

fn main() {
    install_hook();
    #[cfg(feature = "fence")]
    fence::start();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() < 2 {
        usage();
    }
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let flag = |k: &str| a.iter().any(|x| x == k);
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = flag("--thorough");
    // one part of the jobs only: k/n
    let shard = opt("--shard")
        .and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(1))))
        .unwrap_or((0, 1));
    if flag("--no-avx2") {
        #[cfg(all(feature = "simd", target_arch = "x86_64", target_os = "linux", not(miri)))]
        let ok = cpuid::hide_avx2();
        #[cfg(not(all(feature = "simd", target_arch = "x86_64", target_os = "linux", not(miri))))]
        let ok = false;
        if !ok {
            eprintln!("cannot hide AVX2 on this machine");
            std::process::exit(4);
        }
    }
    match a[0].as_str() {
        "check" => {
            let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500.0 } else { 100.0 });
            let mut ctx = Ctx::new(&a[1], thorough, seed, budget);
            ctx.shard = shard;
            if let Some(s) = opt("--hang") {
                ctx.hang_cpu_s = s.parse().unwrap();
            }
            if let Some(s) = opt("--threads") {
                ctx.threads = s.parse().unwrap();
            }
            if let Some(o) = opt("--only") {
                let (t, i) = o.split_once(':').unwrap_or_else(|| usage());
                ctx.only = Some((t.into(), i.parse().unwrap_or_else(|_| usage())));
            }
            let rounds: u64 = opt("--rounds").and_then(|s| s.parse().ok()).unwrap_or(1);
            for round in 0..rounds {
                ctx.seed.store(seed + round * 1_000_003, SeqCst);
                if round > 0 && (ctx.start.elapsed().as_secs_f64() > ctx.budget || ctx.stop.load(SeqCst)) {
                    break;
                }
                match a[1].as_str() {
                    "C01" => c_stream::c01(&ctx),
                    "C02" => c_stream::c02(&ctx),
                    "C03" => c_stream::c03(&ctx),
                    "C04" => c_stream::c04(&ctx),
                    "C05" => c_stream::c05(&ctx),
                    "C06" => c_stream::c06(&ctx),
                    "C07" => c_stream::c07(&ctx),
                    "C08" => c_tables::c08(&ctx),
                    #[cfg(feature = "std")]
                    "huge" => c_tables::huge(&ctx),
                    "C09" => c_tables::c09(&ctx),
                    "C12" | "mem" => mem::mem(&ctx),
                    "memmini" => mem::mini(&ctx),
                    "C13" => c_api::c13(&ctx),
                    "C14" => c_api::c14(&ctx),
                    #[cfg(all(feature = "std", unix, not(miri)))]
                    "C15" => c_api::c15(&ctx),
                    "C16" => c_api::c16(&ctx),
                    "C17" => c_misc::c17(&ctx),
                    "C18" => c_misc::c18(&ctx),
                    "C19" => c_misc::c19(&ctx),
                    "C20" => c_api::c20(&ctx),
                    #[cfg(feature = "thirdparty")]
                    "C21" => third::c21(&ctx),
                    "C22" => c_misc::c22(&ctx),
                    _ => usage(),
                }
            }
            finish(&ctx)
        }
        "dump" => dump::dump(&a[1], seed, thorough, flag("--mini"), flag("--reverse"), shard, opt("--agent")),
        #[cfg(feature = "thirdparty")]
        "corpus" => third::corpus(&a[1], seed, opt("--n").and_then(|s| s.parse().ok()).unwrap_or(300), flag("--thorough")),
        _ => usage(),
    }
}
