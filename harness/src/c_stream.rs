//! C01-C09: predicates over the decoded stream.
use crate::case::*;
use crate::ctx::*;
use crate::jpeg::{self, Jpeg};
use crate::model::*;
use crate::rng::Rng;
use jpeg_encoder::*;

/// Encode; an error or panic on a valid request is a failure of whatever was promised about the result.
pub fn enc(c: &Case, px: &[u8]) -> Result<Vec<u8>, String> {
    match guard(|| c.encode_px(px)) {
        Err(p) => Err(format!("panic while encoding a valid request: {}", p)),
        Ok(Err(e)) => Err(format!("a valid request was refused: {:?}", e)),
        Ok(Ok(v)) => Ok(v),
    }
}

pub fn enc_parse(c: &Case, px: &[u8]) -> Result<(Vec<u8>, Jpeg), String> {
    let v = enc(c, px)?;
    let j = jpeg::parse(&v).map_err(|e| format!("malformed stream: {}", e))?;
    Ok((v, j))
}

/// one case drawn from the systematic part: small dims x rotating settings
pub fn grid_case(r: &mut Rng, i: u64, n: u64, m: u64) -> Case {
    let mut c = random_case(r, 4096);
    c.w = (1 + i % n) as u16;
    c.h = (1 + (i / n) % m) as u16;
    c
}

fn extreme_cases() -> Vec<(u16, u16)> {
    vec![
        (65535, 1),
        (1, 65535),
        (65535, 2),
        (2, 65535),
        (65535, 7),
        (7, 65535),
        (65535, 8),
        (9, 65535),
        (65535, 17),
        (17, 65535),
        (65528, 9),
        (65534, 3),
        (32768, 5),
        (5, 32768),
        (65535, 33),
        (33, 65535),
    ]
}

fn stream_stats(l: &mut Local, v: &[u8], j: &Jpeg) {
    l.count("bytes", v.len() as u64);
    l.count("blocks", j.blocks);
    l.count("nonzero_ac", j.nonzero_ac);
    l.count("scans", j.scans.len() as u64);
    l.count("restart_markers", j.scans.iter().map(|s| s.restarts as u64).sum());
    l.count("stuffed_ff", j.scans.iter().map(|s| s.stuffed).sum());
    for s in &j.scans {
        l.cover("scan_bits_mod_64", s.bits % 64);
    }
    for d in &j.dhts {
        for (s, &f) in d.freq.iter().enumerate() {
            if f > 0 {
                l.cover("huffman_symbols_seen", (d.class as u64) << 8 | s as u64);
                l.cover("code_lengths_seen", (d.class as u64) << 8 | d.code_len[s] as u64);
            }
        }
    }
    l.max("max_abs_dc", j.max_abs_dc as f64);
    l.max("max_abs_ac", j.max_abs_ac as f64);
    l.cover("frame_layouts", {
        let mut h = j.sof as u64;
        for c in &j.comps {
            h = h * 31 + (c.h * 5 + c.v) as u64;
        }
        h * 131 + j.scans.len() as u64
    });
}

fn c01_one(l: &mut Local, c: &Case) -> Res {
    let s = c.to_string();
    l.what(&s);
    let px = c.pixels();
    let (v, j) = enc_parse(c, &px)?;
    l.eval(&s, j.nonzero_ac > 0 || j.scans.len() > 1 || j.blocks > 1);
    // every component carries exactly the blocks the frame header promises
    for (i, k) in j.comps.iter().enumerate() {
        let (bw, bh) = c.blocks(i);
        if (k.bw, k.bh) != (bw, bh) {
            return Err(format!("component #{} has {}x{} blocks, the picture needs {}x{}", i, k.bw, k.bh, bw, bh));
        }
    }
    if j.fill_bytes > 0 {
        l.count("fill_bytes", j.fill_bytes as u64);
    }
    stream_stats(l, &v, &j);
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    let n = 20;
    ctx.run("grid", ctx.n(n * n * 3, 40 * 40 * 20), |r, i, l| {
        let n = if l.ctx.thorough { 40 } else { 20 };
        let c = grid_case(r, i, n, n);
        c01_one(l, &c)
    });
    ctx.run("random", ctx.n(12000, 400_000), |r, _, l| {
        let m = *r.pick(&[600usize, 3000, 12000, 40000]);
        let c = random_case(r, m);
        c01_one(l, &c)
    });
    // content with many 0xFF bytes and long codes
    ctx.run("hostile", ctx.n(4000, 100_000), |r, _, l| {
        let mut c = random_case(r, 9000);
        c.img = *r.pick(&[0u8, 1, 4, 7, 8, 10, 13]);
        c.q = *r.pick(&[100u8, 100, 99, 96, 255]);
        if r.chance(2, 3) {
            c.qt = [Qt::Preset(0); 2];
        } else {
            c.qt = [Qt::Custom(0, 0); 2];
        }
        c01_one(l, &c)
    });
    let ex = extreme_cases();
    ctx.run("extreme", ctx.n(2, 12) * ex.len() as u64, |r, i, l| {
        let mut c = random_case(r, 64);
        let (w, h) = ex[i as usize % ex.len()];
        c.w = w;
        c.h = h;
        c.icc = None;
        c01_one(l, &c)
    });
    // every restart phase of the word-sized bit buffer: one block pictures with every settings shape
    ctx.run("tiny", ctx.n(9 * 16 * 4, 9 * 16 * 200), |r, i, l| {
        let mut c = random_case(r, 64);
        c.ct = (i % 9) as u8;
        c.sf = Some(((i / 9) % 16) as u8);
        c01_one(l, &c)
    });
    ctx.run("large", ctx.n(3, 16), |r, i, l| {
        let mut c = random_case(r, 64);
        c.icc = None;
        c.app.clear();
        c.ct = [0u8, 1, 7][i as usize % 3];
        c.w = 1500 + r.below(1500) as u16;
        c.h = 1500 + r.below(500) as u16;
        c.img = *r.pick(&[0u8, 5, 13]);
        c.prog = if i % 2 == 1 { Some(5) } else { None };
        c01_one(l, &c)
    });
    ctx.run("big", ctx.n(15, 200), |r, i, l| {
        let c = big_case(r, i);
        c01_one(l, &c)
    });
}

// ---------------------------------------------------------------- C02

/// Segments up to (excluding) the entropy data of the first scan.
pub fn parse_prefix(d: &[u8]) -> Result<(Vec<(u8, Vec<u8>)>, Option<usize>), String> {
    if d.len() < 2 || d[0] != 0xFF || d[1] != 0xD8 {
        return Err("no SOI".into());
    }
    let mut p = 2;
    let mut out = vec![];
    while p + 4 <= d.len() {
        if d[p] != 0xFF {
            return Err(format!("no marker at byte {}", p));
        }
        let m = d[p + 1];
        let n = (d[p + 2] as usize) << 8 | d[p + 3] as usize;
        if n < 2 || p + 2 + n > d.len() {
            return Err("truncated".into());
        }
        out.push((m, d[p + 4..p + 2 + n].to_vec()));
        p += 2 + n;
        if m == 0xDA {
            return Ok((out, Some(p)));
        }
    }
    Err("no scan header in the prefix".into())
}

pub struct Blank {
    pub w: u16,
    pub h: u16,
    pub t: JpegColorType,
}
impl ImageBuffer for Blank {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.t
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, _: u16, b: &mut [Vec<u8>; 4]) {
        let n = match self.t {
            JpegColorType::Luma => 1,
            JpegColorType::Ycbcr => 3,
            _ => 4,
        };
        for c in b.iter_mut().take(n) {
            c.resize(c.len() + self.w as usize, 77);
        }
    }
}

pub fn c02(ctx: &Ctx) {
    // all dimensions: cut the destination off right after the headers
    ctx.run("alldims", ctx.n(65535 / 15, 65535), |r, i, l| {
        let step = if l.ctx.thorough { 1 } else { 15 };
        for half in 0..2 {
            let big = (1 + i * step + if step > 1 { r.below(step) } else { 0 }).min(65535) as u16;
            let other = *r.pick(&[1u16, 2, 3, 16, 255, 256, 257, 4096, 65535]);
            let (w, h) = if half == 0 { (big, other) } else { (other, big) };
            let t = *r.pick(&[JpegColorType::Luma, JpegColorType::Ycbcr, JpegColorType::Cmyk, JpegColorType::Ycck]);
            // bound the amount of row buffer touched before the fault
            let (sink, log) = crate::sink::Sink::new(crate::sink::Fault::At { at: 760, kind: 0 }, 0, 0, 1);
            l.what(&format!("dims {}x{} {:?}", w, h, t));
            let res = guard(|| {
                let mut sink = sink;
                let mut e = Encoder::new(&mut sink as Dst, 50);
                e.set_sampling_factor(SamplingFactor::F_1_1);
                e.encode_image(By(&Blank { w, h, t }))
            })
            .map_err(|p| format!("panic: {}", p))?;
            let g = log.lock().unwrap();
            let d = &g.data;
            if res.is_ok() && g.errors > 0 {
                return Err("success although the destination failed".into());
            }
            let (segs, _) = parse_prefix(d)?;
            let sof = segs.iter().find(|s| s.0 == 0xC0).ok_or("no SOF0")?;
            let (gh, gw) = ((sof.1[1] as u16) << 8 | sof.1[2] as u16, (sof.1[3] as u16) << 8 | sof.1[4] as u16);
            if (gw, gh) != (w, h) {
                return Err(format!("frame header says {}x{}, requested {}x{}", gw, gh, w, h));
            }
            l.cover("dims_seen", (w as u64) << 16 | h as u64);
            l.eval(&format!("{}x{} {:?}", w, h, t), true);
        }
        Ok(())
    });
    let one = |l: &mut Local, c: &Case| -> Res {
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        let v = enc(c, &px)?;
        let j = jpeg::parse(&v)?;
        check_header(c, &j)?;
        l.cover("colour_x_factor_x_mode", c.ct as u64 * 1000 + c.sf.unwrap_or(99) as u64 * 10 + c.prog.is_some() as u64 * 2 + c.opt as u64);
        l.count("adobe_segments", j.apps.iter().filter(|a| a.0 == 14 && a.1.starts_with(b"Adobe")).count() as u64);
        l.count("densities", (c.dens != Dens::None) as u64);
        l.eval(&s, true);
        Ok(())
    };
    // all colour types x factors x modes
    ctx.run("matrix", 9 * 17 * 4, |r, i, l| {
        let mut c = random_case(r, 2000);
        c.ct = (i % 9) as u8;
        c.sf = match (i / 9) % 17 {
            16 => None,
            s => Some(s as u8),
        };
        let m = i / (9 * 17);
        c.prog = if m & 1 == 1 { Some(r.range(2, 8) as u8) } else { None };
        c.opt = m & 2 == 2;
        one(l, &c)
    });
    ctx.run("density", ctx.n(4000, 65536), |r, i, l| {
        let mut c = random_case(r, 100);
        let x = if l.ctx.thorough { i as u16 } else { r.next() as u16 };
        let y = *r.pick(&[0u16, 1, 255, 256, 65535, x ^ 0xFFFF]);
        c.dens = if i % 2 == 0 { Dens::Inch(x, y) } else { Dens::Cm(y, x) };
        one(l, &c)
    });
    // values that mean something to people, in all pairs, and every square density up to 1200
    const DENS: [u16; 30] = [
        0, 1, 2, 3, 10, 28, 36, 59, 71, 72, 73, 96, 100, 118, 127, 128, 150, 200, 254, 255, 256, 257, 300, 600, 1200, 2540, 32767, 32768, 65534, 65535,
    ];
    ctx.run("density_pairs", 30 * 30 * 2 + 1201 * 2, |r, i, l| {
        let mut c = random_case(r, 100);
        let (x, y) = match i / 2 {
            k if k < 900 => (DENS[k as usize / 30], DENS[k as usize % 30]),
            k => (k as u16 - 900, k as u16 - 900),
        };
        c.dens = if i % 2 == 0 { Dens::Inch(x, y) } else { Dens::Cm(x, y) };
        l.cover("density_pairs", (i & 1) << 32 | (x as u64) << 16 | y as u64);
        one(l, &c)
    });
    ctx.run("random", ctx.n(6000, 100_000), |r, _, l| {
        let c = random_case(r, 4000);
        one(l, &c)
    });
    // long pictures of one to a few block rows in the modes that keep every coefficient
    ctx.run("strips", ctx.n(600, 12_000), |r, i, l| {
        let mut c = random_case(r, 64);
        c.app.clear();
        c.icc = None;
        let m = i % 5;
        c.sf = Some(if m == 0 { 4 + r.below(4) as u8 } else { r.below(8) as u8 });
        c.prog = if m & 1 == 1 { Some(r.range(2, 5) as u8) } else { None };
        c.opt = m & 2 == 2;
        let a = match r.below(3) {
            0 => 65535 - r.below(40),
            1 => 1u64 << r.range(8, 15),
            _ => r.range(256, 65535) as u64,
        } as u16;
        let b = r.range(1, 4) as u16;
        (c.w, c.h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
        one(l, &c)
    });
    ctx.run("big", ctx.n(10, 150), |r, i, l| {
        let c = big_case(r, i);
        one(l, &c)
    });
}

// ---------------------------------------------------------------- C03 / C04

fn pic_one(l: &mut Local, c: &Case, what: &str) -> Res {
    let s = c.to_string();
    l.what(&s);
    let px = c.pixels();
    let (_, j) = enc_parse(c, &px)?;
    check_header(c, &j)?;
    let pl = planes(c, &px);
    let st = check_picture(c, &pl, &j)?;
    l.count("exact_coefficients", st.exact_coefs);
    l.count("range_coefficients", st.box_coefs);
    l.count("edge_blocks", st.edge_blocks);
    l.count("padding_blocks", st.pad_blocks);
    l.count("nonzero_ac", j.nonzero_ac);
    l.max("max_error_minus_half_step_in_eighths", st.max_excess8);
    l.max("max_error_over_allowed", st.max_ratio);
    l.max("max_error_at_step_1", st.max_ratio_q1);
    l.cover("layouts", c.ct as u64 * 100 + c.sf.unwrap_or(99) as u64);
    let _ = what;
    l.eval(&s, j.nonzero_ac > 0 || st.edge_blocks > 0 || j.max_abs_dc > 0);
    Ok(())
}

/// every sample of the exact bound needs cells without variation: factors 1x1, or cell-constant pictures
fn exactable(c: &mut Case, r: &mut Rng) {
    if c.factors() != (1, 1) && r.chance(3, 4) {
        if r.chance(1, 2) {
            c.sf = Some(*r.pick(&[0u8, 8]));
        } else {
            c.img = *r.pick(&[11u8, 12, 3]);
        }
    }
}

pub fn c03(ctx: &Ctx) {
    // saturated basis functions, impulses, all constants, at every quality
    ctx.run("qualities", ctx.n(256, 256 * 40), |r, i, l| {
        let mut c = random_case(r, 2000);
        c.q = (i % 256) as u8;
        c.qt = [Qt::Preset(r.below(9) as u8), Qt::Preset(r.below(9) as u8)];
        c.sf = Some(0);
        for img in [7u8, 0, 8, 13] {
            c.img = img;
            pic_one(l, &c, "q")?;
        }
        Ok(())
    });
    ctx.run("impulse", 64, |r, i, l| {
        // custom source: impulse at sample i of each block with varying amplitude and base
        let mut c = Case { ct: 5, w: 8 * 32, h: 8 * 16, q: 100, sf: Some(0), ..Case::default() };
        c.seed = r.next() >> 24;
        let s = format!("impulse {} {}", i, c);
        l.what(&s);
        let mut px = vec![0u8; c.npix() * 3];
        for by in 0..16usize {
            for bx in 0..32usize {
                for k in 0..3 {
                    let base = r.u8();
                    let v = if bx % 2 == 0 { r.u8() } else { 255 * (by & 1) as u8 };
                    for y in 0..8 {
                        for x in 0..8 {
                            let p = ((by * 8 + y) * 256 + bx * 8 + x) * 3 + k;
                            px[p] = if (y * 8 + x) as u64 == i { v } else { base };
                        }
                    }
                }
            }
        }
        for opt in [false, true] {
            c.opt = opt;
            let (_, j) = enc_parse(&c, &px)?;
            let st = check_picture(&c, &planes(&c, &px), &j)?;
            l.count("exact_coefficients", st.exact_coefs);
            l.max("max_error_at_step_1", st.max_ratio_q1);
        }
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("constants", 256, |r, i, l| {
        let mut c = Case { ct: 5, w: 24, h: 16, q: 1 + (r.below(100)) as u8, sf: Some(r.below(8) as u8), ..Case::default() };
        c.opt = r.chance(1, 2);
        let s = format!("constant {} {}", i, c);
        l.what(&s);
        let px = vec![i as u8; c.npix() * 3];
        for q in [1u8, 25, 50, 75, 95, 100] {
            c.q = q;
            let (_, j) = enc_parse(&c, &px)?;
            let st = check_picture(&c, &planes(&c, &px), &j)?;
            l.count("exact_coefficients", st.exact_coefs);
        }
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("custom_tables", ctx.n(1500, 60_000), |r, _, l| {
        let mut c = random_case(r, 4000);
        c.qt = [Qt::Custom(r.below(NQT) as u8, r.next() >> 32), Qt::Custom(r.below(NQT) as u8, r.next() >> 32)];
        exactable(&mut c, r);
        pic_one(l, &c, "custom")
    });
    ctx.run("random", ctx.n(6000, 300_000), |r, _, l| {
        let mut c = random_case(r, 9000);
        exactable(&mut c, r);
        pic_one(l, &c, "random")
    });
    ctx.run("big", ctx.n(10, 150), |r, i, l| {
        let mut c = big_case(r, i);
        exactable(&mut c, r);
        pic_one(l, &c, "big")
    });
}

pub fn c04(ctx: &Ctx) {
    // every residue of both dimensions modulo the largest MCU, all factors, all layouts of scans
    ctx.run("residues", ctx.n(8 * 4 * 36, 8 * 4 * 66 * 66), |r, i, l| {
        let sf = (i % 8) as u8;
        let mode = (i / 8) % 4;
        let k = i / 32;
        let reps = if l.ctx.thorough { 1 } else { 8 };
        for n in 0..reps {
            let (w, h) = if l.ctx.thorough {
                (1 + k % 66, 1 + (k / 66) % 66)
            } else {
                (1 + k % 36, 1 + (r.below(36) / reps + n * 36 / reps) % 36)
            };
            let mut c = random_case(r, 100);
            c.w = w as u16;
            c.h = h as u16;
            c.sf = Some(sf);
            c.q = *r.pick(&[100u8, 100, 95, 60]);
            c.qt = [Qt::Preset(0); 2];
            c.prog = if mode & 1 == 1 { Some(r.range(2, 6) as u8) } else { None };
            c.opt = mode & 2 == 2;
            c.img = *r.pick(&[11u8, 12, 14, 14, 0, 4]);
            pic_one(l, &c, "residue")?;
            l.cover("dims_x_factor_x_mode", (w << 32) | (h << 16) | (sf as u64) << 4 | mode);
        }
        Ok(())
    });
    ctx.run("strips", ctx.n(300, 6000), |r, _, l| {
        let mut c = random_case(r, 100);
        let a = r.range(1, 3) as u16;
        let b = r.range(1, 3000) as u16;
        (c.w, c.h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
        c.q = 100;
        c.qt = [Qt::Preset(0); 2];
        c.img = *r.pick(&[0u8, 11, 14]);
        pic_one(l, &c, "strip")
    });
    let ex = extreme_cases();
    ctx.run("extreme", ctx.n(1, 10) * ex.len() as u64, |r, i, l| {
        let mut c = random_case(r, 64);
        (c.w, c.h) = ex[i as usize % ex.len()];
        c.icc = None;
        c.q = 100;
        c.img = *r.pick(&[11u8, 14]);
        pic_one(l, &c, "extreme")
    });
    ctx.run("random", ctx.n(3000, 150_000), |r, _, l| {
        let mut c = random_case(r, 12000);
        if r.chance(1, 2) {
            c.q = 100;
            c.qt = [Qt::Preset(0); 2];
        }
        c.img = *r.pick(&[0u8, 2, 5, 11, 11, 12, 14, 9]);
        pic_one(l, &c, "random")
    });
    ctx.run("big", ctx.n(15, 200), |r, i, l| {
        let mut c = big_case(r, i);
        c.img = *r.pick(&[11u8, 11, 14, 0]);
        c.q = 100;
        pic_one(l, &c, "big")
    });
}

// ---------------------------------------------------------------- C05

pub fn same_coefs(a: &Jpeg, b: &Jpeg) -> Result<(), String> {
    if a.comps.len() != b.comps.len() || a.width != b.width || a.height != b.height {
        return Err("frames differ".into());
    }
    for (c, (x, y)) in a.comps.iter().zip(&b.comps).enumerate() {
        if (x.h, x.v, x.bw, x.bh) != (y.h, y.v, y.bw, y.bh) {
            return Err(format!("component #{} differs in factors or blocks", c));
        }
        if a.qt[x.tq] != b.qt[y.tq] {
            return Err(format!("component #{} differs in quantisation", c));
        }
        for by in 0..x.bh {
            for bx in 0..x.bw {
                let (p, q) = (a.block(c, bx, by), b.block(c, bx, by));
                if p != q {
                    let k = (0..64).find(|&k| p[k] != q[k]).unwrap();
                    return Err(format!(
                        "component #{} block ({},{}) zig-zag {}: {} in the plain encoding, {} in the other",
                        c, bx, by, k, p[k], q[k]
                    ));
                }
            }
        }
    }
    Ok(())
}

/// the same picture with the options of another big case
fn big_like(c: &Case, r: &mut Rng, i: u64) -> Case {
    let o = big_case(r, i);
    Case { prog: o.prog, opt: o.opt, ri: o.ri, ..c.clone() }
}

fn plain(c: &Case) -> Case {
    Case { prog: None, opt: false, ri: 0, ..c.clone() }
}

pub fn c05(ctx: &Ctx) {
    let one = |l: &mut Local, base: &Case, vars: &[Case]| -> Res {
        l.what(&base.to_string());
        let px = base.pixels();
        let (_, j0) = enc_parse(base, &px)?;
        for v in vars {
            let s = v.to_string();
            l.what(&s);
            let (_, j) = enc_parse(v, &px)?;
            same_coefs(&j0, &j)?;
            l.count("blocks_compared", j.comps.iter().map(|c| (c.bw * c.bh) as u64).sum());
            l.cover("settings_pairs", v.prog.unwrap_or(0) as u64 * 4 + v.opt as u64 * 2 + (v.ri > 0) as u64);
            l.eval(&s, j0.nonzero_ac > 0);
        }
        Ok(())
    };
    // all scan counts x opt x restart on a few pictures
    ctx.run("scans", ctx.n(64, 64 * 30), |r, i, l| {
        let mut b = plain(&random_case(r, 2500));
        b.app.clear();
        b.icc = None;
        b.ct = (i % 9) as u8;
        let n = 1 + i % 64;
        let prog = if n < 2 { None } else { Some(n as u8) };
        let mut vars = vec![];
        for opt in [false, true] {
            for ri in [0u16, 1, r.range(2, 20) as u16, r.range(1, 65535) as u16] {
                vars.push(Case { prog, opt, ri, ..b.clone() });
            }
        }
        one(l, &b, &vars)
    });
    ctx.run("random", ctx.n(4000, 150_000), |r, _, l| {
        let c = random_case(r, 6000);
        let b = plain(&c);
        let mut vars = vec![c];
        for _ in 0..3 {
            let o = random_case(r, 64);
            vars.push(Case { prog: o.prog, opt: o.opt, ri: o.ri, ..b.clone() });
        }
        one(l, &b, &vars)
    });
    ctx.run("larger", ctx.n(10, 100), |r, _, l| {
        let mut b = plain(&random_case(r, 64));
        b.w = r.range(300, 1200) as u16;
        b.h = r.range(300, 900) as u16;
        let vars: Vec<Case> = (0..3)
            .map(|_| {
                let o = random_case(r, 64);
                Case { prog: o.prog, opt: o.opt, ri: o.ri, ..b.clone() }
            })
            .collect();
        one(l, &b, &vars)
    });
    ctx.run("big", ctx.n(12, 150), |r, i, l| {
        let c = big_case(r, i);
        one(l, &plain(&c), &[c.clone(), big_like(&c, r, i + 1), big_like(&c, r, i + 3)])
    });
}

// ---------------------------------------------------------------- C06

fn c06_one(l: &mut Local, c: &Case) -> Res {
    let s = c.to_string();
    l.what(&s);
    let px = c.pixels();
    // the parser itself demands RST(k mod 8) after exactly n MCUs in every scan, no other marker, resets its
    // predictors there, and byte-aligned all-ones padding before it
    let (v, j) = enc_parse(c, &px)?;
    if c.ri == 0 {
        if !j.dris.is_empty() {
            return Err(format!("interval 0 but DRI {:?}", j.dris));
        }
    } else {
        if j.dris != [c.ri as usize] {
            return Err(format!("DRI segments {:?}, expected one announcing {}", j.dris, c.ri));
        }
        let pd = j.order.iter().position(|&m| m == 0xDD).unwrap();
        let ps = j.order.iter().position(|&m| m == 0xDA).unwrap();
        if pd > ps {
            return Err("DRI after the first scan header".into());
        }
    }
    for (k, sc) in j.scans.iter().enumerate() {
        let want = if c.ri == 0 { 0 } else { (sc.mcus - 1) / c.ri as usize };
        if sc.restarts != want {
            return Err(format!("scan {} has {} restart markers, expected {}", k, sc.restarts, want));
        }
        let mcus = if sc.comps.len() == 1 {
            let (bw, bh) = c.blocks(sc.comps[0]);
            bw * bh
        } else {
            c.mcus_interleaved()
        };
        if sc.mcus != mcus {
            return Err(format!("scan {} has {} MCUs, expected {}", k, sc.mcus, mcus));
        }
        l.count("scans", 1);
        l.count("restart_markers", sc.restarts as u64);
        l.max("max_restarts_in_a_scan", sc.restarts as f64);
        if sc.restarts > 0 {
            l.cover("last_group_size_relation", (sc.mcus % c.ri as usize == 0) as u64);
            l.cover("restart_counts", sc.restarts as u64);
        }
        // RST bytes really are where the trace says and nowhere else
        let n = v[sc.start..sc.end].windows(2).filter(|w| w[0] == 0xFF && (0xD0..=0xD7).contains(&w[1])).count();
        if n != sc.restarts {
            return Err(format!("scan {}: {} RST byte pairs, {} expected", k, n, sc.restarts));
        }
    }
    // predictors: the same picture without restarts has the same coefficients
    if c.ri > 0 {
        let mut p = c.clone();
        p.ri = 0;
        let (_, j0) = enc_parse(&p, &px)?;
        same_coefs(&j0, &j)?;
    }
    l.eval(&s, j.scans.iter().any(|s| s.restarts > 0));
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    // intervals around the MCU count, for every mode and factor
    ctx.run("around", ctx.n(9 * 8 * 4 * 2, 9 * 8 * 4 * 60), |r, i, l| {
        let mut c = random_case(r, 2500);
        c.ct = (i % 9) as u8;
        c.sf = Some(((i / 9) % 8) as u8);
        let m = (i / 72) % 4;
        c.prog = if m & 1 == 1 { Some(r.range(2, 64) as u8) } else { None };
        c.opt = m & 2 == 2;
        c.img = *r.pick(&[0u8, 5, 8, 10, 13]);
        let n = c.mcus_interleaved() as i64;
        let (bw, bh) = c.blocks(0);
        let b = (bw * bh) as i64;
        let mut iv = vec![1, 2, 3, n - 1, n, n + 1, b - 1, b, b + 1, n / 2, b / 2, 8, 9, 0];
        iv.push(r.range(1, n.max(2)));
        iv.retain(|&x| (0..=65535).contains(&x));
        iv.sort();
        iv.dedup();
        for x in iv {
            c.ri = x as u16;
            c06_one(l, &c)?;
        }
        Ok(())
    });
    ctx.run("wide", ctx.n(24, 300), |r, i, l| {
        // many markers (wrap far past RST7), intervals beyond 255
        let mut c = random_case(r, 64);
        c.app.clear();
        c.icc = None;
        c.ct = *r.pick(&[0u8, 1, 6]);
        c.w = r.range(200, 700) as u16;
        c.h = r.range(200, 500) as u16;
        c.ri = [1u16, 2, 7, 255, 256, 257, 300, 511, 512, 513, 1000, 4097][i as usize % 12];
        c06_one(l, &c)
    });
    ctx.run("huge", ctx.n(2, 6), |r, i, l| {
        // more than 65535 MCUs against the largest intervals
        let mut c = Case { ct: 0, w: 8 * 300, h: 8 * 220, q: 30, img: 8, seed: r.next() >> 24, ..Case::default() };
        c.ri = [65535u16, 32768, 1, 65534, 40000, 3][i as usize % 6];
        c.opt = i % 2 == 1;
        c.prog = if i % 4 >= 2 { Some(3) } else { None };
        c06_one(l, &c)
    });
    ctx.run("random", ctx.n(6000, 200_000), |r, _, l| {
        let mut c = random_case(r, 5000);
        if c.ri == 0 && r.chance(3, 4) {
            c.ri = r.range(1, 30) as u16;
        }
        c06_one(l, &c)
    });
    ctx.run("big", ctx.n(15, 200), |r, i, l| {
        let c = big_case(r, i);
        c06_one(l, &c)
    });
}

// ---------------------------------------------------------------- C07

fn c07_one(l: &mut Local, c: &Case) -> Res {
    let s = c.to_string();
    l.what(&s);
    let px = c.pixels();
    let (_, j) = enc_parse(c, &px)?; // legality, coverage once, DC before AC: parser
    let n = c.prog.unwrap() as usize;
    let nc = c.ncomp();
    if j.sof != 0xC2 {
        return Err(format!("frame type {:#x}", j.sof));
    }
    let mut seen_ac = false;
    let mut dc = vec![0usize; nc];
    let mut bands: Vec<Vec<(u8, u8)>> = vec![vec![]; nc];
    for sc in &j.scans {
        if sc.ss == 0 {
            if seen_ac {
                return Err("a DC scan follows an AC scan".into());
            }
            for &k in &sc.comps {
                dc[k] += 1;
            }
        } else {
            seen_ac = true;
            bands[sc.comps[0]].push((sc.ss, sc.se));
        }
        let want = if sc.comps.len() == 1 {
            let (bw, bh) = c.blocks(sc.comps[0]);
            bw * bh
        } else {
            c.mcus_interleaved()
        };
        if sc.mcus != want {
            return Err(format!("a scan carries {} blocks, expected {}", sc.mcus, want));
        }
    }
    for k in 0..nc {
        if dc[k] != 1 {
            return Err(format!("component #{} has {} DC scans", k, dc[k]));
        }
        if bands[k].len() != n - 1 {
            return Err(format!("component #{} has {} AC scans, expected {}", k, bands[k].len(), n - 1));
        }
        let mut next = 1;
        for &(a, b) in &bands[k] {
            if a != next || b < a {
                return Err(format!("component #{}: band {}..{} does not continue at {}", k, a, b, next));
            }
            next = b + 1;
        }
        if next != 64 {
            return Err(format!("component #{}: bands end at {}", k, next - 1));
        }
    }
    l.count("scans", j.scans.len() as u64);
    l.cover("scan_counts", n as u64);
    l.cover("scan_count_x_colour_x_opt", (n * 100) as u64 + c.ct as u64 * 2 + c.opt as u64);
    l.cover("distinct_scripts", crate::rng::fnv(format!("{:?}", bands[0]).as_bytes()));
    l.eval(&s, true);
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    ctx.run("all", ctx.n(63 * 9 * 2, 63 * 9 * 2 * 40), |r, i, l| {
        let mut c = random_case(r, 1500);
        c.app.clear();
        c.icc = None;
        c.prog = Some(2 + (i % 63) as u8);
        c.ct = ((i / 63) % 9) as u8;
        c.opt = (i / 567) % 2 == 1;
        c07_one(l, &c)
    });
    ctx.run("random", ctx.n(2500, 100_000), |r, _, l| {
        let mut c = random_case(r, 6000);
        c.prog = Some(if r.chance(1, 2) { r.range(2, 64) as u8 } else { 4 });
        c07_one(l, &c)
    });
    // "or 4 by default"
    ctx.run("default4", 200, |r, _, l| {
        let mut c = random_case(r, 3000);
        c.prog = Some(4);
        c.seed &= !1; // configure() then calls set_progressive(true)
        c07_one(l, &c)
    });
    let ex = extreme_cases();
    ctx.run("extreme", ctx.n(4, 32), |r, i, l| {
        let mut c = random_case(r, 64);
        (c.w, c.h) = ex[i as usize % ex.len()];
        c.prog = Some(r.range(2, 64) as u8);
        c07_one(l, &c)
    });
    ctx.run("big", ctx.n(8, 100), |r, i, l| {
        let c = big_case(r, 3 + i % 2);
        c07_one(l, &c)
    });
}
