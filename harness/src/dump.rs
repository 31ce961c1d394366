//! Digest lists: every job prints one line "tag idx result". Two builds (or two processes) of the same list must agree.
use crate::case::*;
use crate::mips::{Cpu, Image};
use crate::spec::Spec;
use crate::rng::{fnv, Rng};
use jpeg_encoder::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

/// what kind of outcome, without wording that may differ between builds
pub fn outcome(r: Result<Result<Vec<u8>, EncodingError>, String>) -> String {
    match r {
        Err(_) => "panic".into(),
        Ok(Ok(v)) => format!("{:016x} {}", fnv(&v), v.len()),
        Ok(Err(e)) => match e {
            EncodingError::InvalidAppSegment(n) => format!("E:InvalidAppSegment {}", n),
            EncodingError::AppSegmentTooLarge(n) => format!("E:AppSegmentTooLarge {}", n),
            EncodingError::IccTooLarge(n) => format!("E:IccTooLarge {}", n),
            EncodingError::BadImageData { length, .. } => format!("E:BadImageData {}", length),
            EncodingError::ZeroImageDimensions { width, height } => format!("E:Zero {}x{}", width, height),
            _ => "E:other".into(),
        },
    }
}

type Job = Box<dyn Fn() -> Spec + Send + Sync>;

fn case_job(c: Case) -> Job {
    Box::new(move || Spec::new(c.clone()))
}

fn jobs(list: &str, seed: u64, thorough: bool, mini: bool) -> Vec<(String, u64, Job)> {
    let mut v: Vec<(String, u64, Job)> = vec![];
    let n = |q: u64, t: u64| if thorough { t } else { q };
    let mut add = |tag: &str, i: u64, j: Job| v.push((tag.to_string(), i, j));
    let small = |c: &mut Case| {
        c.app.truncate(1);
        if let Some(i) = &mut c.icc {
            i.0 = i.0.min(200);
        }
    };
    if mini {
        // for interpreted targets: tiny pictures, all paths
        let total = n(70, 900);
        for i in 0..total {
            let mut r = Rng::derive(seed, "mini", i);
            let mut c = random_case(&mut r, 300);
            c.w = c.w.min(1 + (i % 37) as u16);
            c.h = c.h.min(17);
            c.ct = (i % 9) as u8;
            c.sf = Some(((i / 9) % 8) as u8);
            c.extra = c.extra.min(5);
            if c.prog.is_some_and(|p| p > 6) && i % 5 > 0 {
                c.prog = Some(5);
            }
            small(&mut c);
            // optimising tables takes half a minute here
            c.opt = i % 17 == 3;
            if c.opt && !thorough {
                c.ct = (i % 2) as u8 * 6;
                c.prog = c.prog.map(|_| 2);
            }
            add("mini", i, case_job(c));
        }
        // long runs of bits across every word size
        for i in 0..n(6, 60) {
            let mut r = Rng::derive(seed, "minibits", i);
            let c = Case { ct: 0, w: 16, h: 16, q: 100, img: *r.pick(&[0u8, 7, 10, 1]), seed: i, opt: i % 6 == 1, ri: (i % 3) as u16, qt: [Qt::Custom(0, 0); 2], ..Case::default() };
            add("minibits", i, case_job(c));
        }
        // custom tables with the values closest to any limit
        for i in 0..n(8, 40) {
            let c = Case { ct: 0, w: 8, h: 8, q: 50, img: 7, seed: i, qt: [Qt::Custom([3u8, 4, 6, 1][i as usize % 4], seed ^ i), Qt::Preset(0)], ..Case::default() };
            add("miniq", i, case_job(c));
        }
        short_jobs(&mut add, seed, n(18, 200), true);
        return v;
    }
    match list {
        // C10: SIMD against scalar
        "simd" => {
            for w in 1..=80u64 {
                for ct in 0..9u8 {
                    for k in 0..n(2, 30) {
                        let i = (w * 9 + ct as u64) * 64 + k;
                        let mut r = Rng::derive(seed, "width", i);
                        let mut c = random_case(&mut r, 6000);
                        c.w = w as u16;
                        c.h = r.range(1, 40) as u16;
                        c.ct = ct;
                        add("width", i, case_job(c));
                    }
                }
            }
            wide_jobs(&mut add, seed, n(720, 12_000));
            big_jobs(&mut add, seed, n(15, 200));
            // every colour in every converted layout, in lanes of shuffled neighbours
            for i in 0..64u64 * 5 {
                add(
                    "cube",
                    i,
                    Box::new(move || {
                        let ct = [1u8, 2, 3, 4, 7][(i % 5) as usize];
                        let c = Case { ct, w: 512, h: 512, q: 100, sf: Some(0), qt: [Qt::Custom(0, 0); 2], ..Case::default() };
                        let nb = c.bpp();
                        let mut px = vec![0u8; 512 * 512 * nb];
                        for k in 0..512 * 512usize {
                            let v = ((i as usize / 5) << 18 | k).wrapping_mul(0x9E3779) & 0xFFFFFF;
                            let d = &mut px[k * nb..k * nb + nb];
                            d[0] = (v >> 16) as u8;
                            d[1] = (v >> 8) as u8;
                            d[2] = v as u8;
                            if nb == 4 {
                                d[3] = (v >> 4) as u8;
                            }
                        }
                        Spec { text: format!("colour cube slice {} as {}", i / 5, c), case: c, px, cap: 0, prefix: 0, direct: false, refused: false }
                    }),
                );
            }
            // quantiser x coefficient: extreme blocks at all qualities, presets and custom tables
            for q in 0..=255u64 {
                for img in [7u8, 0, 10, 13, 1] {
                    for k in 0..n(1, 12) {
                        let i = (q * 16 + img as u64) * 16 + k;
                        let mut r = Rng::derive(seed, "extreme", i);
                        let c = Case {
                            ct: *r.pick(&[0u8, 5, 1]),
                            w: 256,
                            h: 128,
                            q: q as u8,
                            sf: Some(0),
                            img,
                            seed: r.next() >> 24,
                            qt: [Qt::Preset(r.below(9) as u8), Qt::Preset(r.below(9) as u8)],
                            ..Case::default()
                        };
                        add("extreme", i, case_job(c));
                    }
                }
            }
            for i in 0..n(1500, 40_000) {
                let mut r = Rng::derive(seed, "custom", i);
                let v = if i < 300 { i } else { r.next() & 0xFFFF };
                let c = Case {
                    ct: *r.pick(&[0u8, 5, 8]),
                    w: 96,
                    h: 64,
                    q: r.u8(),
                    sf: Some(0),
                    img: *r.pick(&[7u8, 10, 1, 0]),
                    seed: r.next() >> 24,
                    qt: [Qt::Custom(8, v), Qt::Custom(r.below(NQT) as u8, r.next() >> 32)],
                    ..Case::default()
                };
                add("custom", i, case_job(c));
            }
            for i in 0..n(6000, 200_000) {
                let mut r = Rng::derive(seed, "random", i);
                let c = random_case(&mut r, 9000);
                add("random", i, case_job(c));
            }
            short_jobs(&mut add, seed, n(900, 9000), false);
        }
        // C11: pictures too large for the emulated machine
        "bigs" => big_jobs(&mut add, seed, n(5, 60)),
        // C11: std against no_std on the host; C18: fresh processes
        _ => {
            for i in 0..n(if list == "proc" { 1500 } else { 6000 }, 100_000) {
                let mut r = Rng::derive(seed, "random", i);
                let c = random_case(&mut r, 6000);
                add("random", i, case_job(c));
            }
            for i in 0..n(600, 10_000) {
                let mut r = Rng::derive(seed, "opt", i);
                let mut c = random_case(&mut r, 3000);
                c.opt = true;
                add("opt", i, case_job(c));
            }
            if list == "host" {
                wide_jobs(&mut add, seed, n(180, 3000));
                segment_jobs(&mut add, seed, n(600, 8000));
                short_jobs(&mut add, seed, n(900, 9000), false);
                for i in 0..n(200, 3000) {
                    let mut r = Rng::derive(seed, "large", i);
                    let mut c = random_case(&mut r, 64);
                    (c.w, c.h) = random_size(&mut r, 120_000);
                    add("large", i, case_job(c));
                }
            }
        }
    }
    v
}

/// more than 65535 blocks, all modes
fn big_jobs(add: &mut impl FnMut(&str, u64, Job), seed: u64, n: u64) {
    for i in 0..n {
        let mut r = Rng::derive(seed, "big", i);
        add("big", i, case_job(big_case(&mut r, i)));
    }
}

/// widths where a row no longer fits into 2^13 .. 2^18 bytes, few rows, all layouts
fn wide_jobs(add: &mut impl FnMut(&str, u64, Job), seed: u64, n: u64) {
    for i in 0..n {
        let mut r = Rng::derive(seed, "wide", i);
        let mut c = random_case(&mut r, 64);
        c.ct = (i % 9) as u8;
        let edge = [4096i64, 8192, 10922, 13107, 16384, 21845, 32768, 43690, 49152, 65535, 65528, 61440][(i / 9) as usize % 12];
        c.w = (edge + r.range(-9, 17)).clamp(1, 65535) as u16;
        if i / 108 % 3 == 2 {
            c.w = r.range(2000, 65535) as u16;
        }
        c.h = r.range(1, 3) as u16;
        c.img = *r.pick(&[0u8, 1, 7, 10]);
        add("wide", i, case_job(c));
    }
}

/// large segments and profiles, destinations with and without spare capacity
fn segment_jobs(add: &mut impl FnMut(&str, u64, Job), seed: u64, n: u64) {
    for i in 0..n {
        add(
            "segments",
            i,
            Box::new(move || {
                let mut r = Rng::derive(seed, "segments", i);
                let size = |r: &mut Rng| match r.below(4) {
                    0 => r.below(65534) as usize,
                    1 => 65533 - r.below(3) as usize,
                    2 => (*r.pick(&[255i64, 256, 4096, 8192, 16384, 32767, 32768, 65519, 65533]) + r.range(-2, 3)).clamp(0, 65533) as usize,
                    _ => r.below(300) as usize,
                };
                let mut c = random_case(&mut r, 200);
                c.app = (0..r.below(4)).map(|_| (1 + r.below(15) as u8, size(&mut r), r.next() >> 40)).collect();
                c.icc = (i % 3 == 0).then(|| (r.below(300_000) as usize, r.next() >> 40));
                let cap = match r.below(5) {
                    0 => 0,
                    1 => 1 + r.below(700) as usize,
                    2 => r.below(70_000) as usize,
                    3 => 32768 + r.below(8) as usize,
                    _ => 1 << 20,
                };
                let prefix = r.below(3) as usize * 5;
                let text = format!("{} into a vector of capacity {} that holds {} bytes", c, cap, prefix);
                // the crate's own destination type in every fourth, not behind a trait object
                Spec { text, px: c.pixels(), case: c, cap, prefix, direct: i % 4 == 0, refused: false }
            }),
        );
    }
}

/// requests that must be refused: zero dimensions, buffers too short (also where w*h*bpp exceeds 32 bits)
fn short_jobs(add: &mut impl FnMut(&str, u64, Job), seed: u64, n: u64, mini: bool) {
    for i in 0..n {
        add(
            "refused",
            i,
            Box::new(move || {
                let mut r = Rng::derive(seed, "refused", i);
                let mut c = random_case(&mut r, 100);
                if mini {
                    c.app.truncate(1);
                    c.icc = None;
                }
                let ct = CTS[(i % 9) as usize].1;
                let bpp = Case { ct: (i % 9) as u8, ..Case::default() }.bpp();
                let (w, h) = match (i / 9) % 6 {
                    0 => (65535u16, 65535u16),
                    // products just above multiples of 2^32
                    1 => *r.pick(&[(32768u16, 32768u16), (65535, 21846), (32769, 32768), (65533, 21847), (65535, 16385), (16384, 65535), (40000, 35792)]),
                    2 => (r.range(30000, 65535) as u16, r.range(30000, 65535) as u16),
                    3 => (0, r.next() as u16),
                    4 => (r.next() as u16, 0),
                    _ => (r.range(2, 60) as u16, r.range(2, 60) as u16),
                };
                let need = w as u64 * h as u64 * bpp as u64;
                let wrap = need & 0xFFFF_FFFF;
                let have = match r.below(4) {
                    0 => 0,
                    // exactly what a 32-bit product would ask for
                    1 if wrap < 300_000 && wrap < need => wrap,
                    2 if need > 0 && need < 20000 => need - 1,
                    _ => r.below(if mini { 300 } else { 5000 }).min(need.saturating_sub(1)),
                } as usize;
                let text = format!("{:?} {}x{} with {} bytes", ct, w, h, have);
                (c.ct, c.w, c.h) = ((i % 9) as u8, w, h);
                Spec { case: c, px: vec![7u8; have], cap: 0, prefix: 0, direct: false, refused: true, text }
            }),
        );
    }
}

pub fn dump(list: &str, seed: u64, thorough: bool, mini: bool, reverse: bool, shard: (u64, u64), agent: Option<String>) {
    let image = agent.map(|p| Image::load(&std::fs::read(p).expect("agent")).expect("not a MIPS program"));
    let image = &image;
    let mut pos = 0;
    let mut js = jobs(list, seed, thorough, mini);
    js.retain(|_| {
        pos += 1;
        pos % shard.1 == shard.0
    });
    if reverse {
        js.reverse();
    }
    let n = js.len();
    let next = AtomicU64::new(0);
    let executed = AtomicU64::new(0);
    let lines: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let threads = if mini || cfg!(miri) { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
              let mut cpu = image.as_ref().map(Cpu::new);
              loop {
                let k = next.fetch_add(1, SeqCst) as usize;
                if k >= n {
                    break;
                }
                let (t, i, f) = &js[k];
                let t0 = std::time::Instant::now();
                let spec = f();
                let (what, res) = (
                    &spec.text,
                    match &mut cpu {
                        None => spec.native(),
                        Some(cpu) => spec.emulated(cpu).unwrap_or_else(|m| format!("UNKNOWN {}", m)),
                    },
                );
                if std::env::var("JMON_TIMES").is_ok() {
                    eprintln!("{} {} {:.3} s {}", t, i, t0.elapsed().as_secs_f64(), what);
                }
                lines.lock().unwrap().push((k, format!("J\t{}\t{}\t{}\t{}", t, i, res, what)));
              }
              executed.fetch_add(cpu.map_or(0, |c| c.instructions), SeqCst);
            });
        }
    });
    let mut l = lines.into_inner().unwrap();
    l.sort();
    if reverse {
        l.reverse();
    }
    let mut o = String::new();
    for (_, s) in l {
        o += &s;
        o.push('\n');
    }
    print!("{}END {} {} {}\n", o, n, crate::build_name(), executed.into_inner());
}
