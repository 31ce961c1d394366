//! C08 (optimised Huffman tables) and C09 (quantisation tables).
use crate::c_stream::*;
use crate::case::*;
use crate::ctx::*;
use crate::jpeg::{self, zigzag, Dht, Jpeg};
use crate::model::*;
use crate::rng::Rng;
use jpeg_encoder::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

/// (optimal total weighted length incl. the reserved weight-1 leaf, depth with depth-seeking tie breaks)
pub fn huffman_opt(freq: &[u64]) -> (u64, u32) {
    let mut h: BinaryHeap<Reverse<(u64, i64)>> = freq.iter().filter(|&&f| f > 0).map(|&f| Reverse((f, 0))).collect();
    h.push(Reverse((1, 0)));
    let mut total = 0;
    let mut depth = 0;
    while h.len() > 1 {
        // among equal weights take the deepest first
        let Reverse((a, da)) = h.pop().unwrap();
        let Reverse((b, db)) = h.pop().unwrap();
        total += a + b;
        let d = 1 + (-da).max(-db);
        depth = depth.max(d);
        h.push(Reverse((a + b, -d)));
    }
    (total, depth as u32)
}

/// code lengths of the Annex K.3 tables, by (class, luma?)
fn default_lengths(class: u8, luma: bool) -> &'static [u8; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[[u8; 256]; 4]> = OnceLock::new();
    let t = T.get_or_init(|| {
        // T.81 tables K.3-K.6 (BITS lists and symbol orders)
        let dc = (0u8..12).collect::<Vec<u8>>();
        let bits: [[u8; 16]; 4] = [
            [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0],
            [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0],
            [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
            [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77],
        ];
        // only the symbols with short codes need listing: all other AC symbols have 16-bit codes
        let lum: [u8; 37] = [
            0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71, 0x14, 0x32,
            0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0, 0x24, 0x33, 0x62, 0x72, 0x82,
        ];
        let chr: [u8; 43] = [
            0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71, 0x13, 0x22, 0x32, 0x81,
            0x08, 0x14, 0x42, 0x91, 0xA1, 0xB1, 0xC1, 0x09, 0x23, 0x33, 0x52, 0xF0, 0x15, 0x62, 0x72, 0xD1, 0x0A, 0x16, 0x24, 0x34,
            0xE1, 0x25, 0xF1,
        ];
        let all: Vec<u8> = {
            let mut v = vec![0x00, 0xF0];
            for r in 0..16u8 {
                for s in 1..=10u8 {
                    v.push(r << 4 | s);
                }
            }
            v
        };
        let mut out = [[0u8; 256]; 4];
        for (k, b) in bits.iter().enumerate() {
            let known: &[u8] = match k {
                0 | 1 => &dc,
                2 => &lum,
                _ => &chr,
            };
            let mut i = 0;
            for (l, &n) in b.iter().enumerate() {
                for _ in 0..n {
                    if i < known.len() {
                        out[k][known[i] as usize] = l as u8 + 1;
                    }
                    i += 1;
                }
            }
            if k >= 2 {
                for &s in &all {
                    if out[k][s as usize] == 0 {
                        out[k][s as usize] = 16;
                    }
                }
            }
        }
        out
    });
    &t[(class * 2 + !luma as u8) as usize]
}

fn table_is_luma(c: &Case, j: &Jpeg, t: usize) -> bool {
    // the side of the components that use table definition t
    let sides = c.comp_tables();
    for s in &j.scans {
        for (k, &(dc, ac)) in s.tables.iter().enumerate() {
            if dc == Some(t) || ac == Some(t) {
                return sides[s.comps[k]] == 0;
            }
        }
    }
    true
}

fn check_dht(l: &mut Local, c: &Case, j: &Jpeg, ti: usize, d: &Dht) -> Result<(), String> {
    let name = format!("{} table {}", if d.class == 0 { "DC" } else { "AC" }, d.id);
    for s in 0..256usize {
        let has = d.code_len[s] > 0;
        let used = d.freq[s] > 0;
        if has && !used {
            return Err(format!("{}: symbol {:#04x} has a code but is never used", name, s));
        }
    }
    let used: usize = d.freq.iter().filter(|&&f| f > 0).count();
    let cost: u64 = (0..256).map(|s| d.freq[s] * d.code_len[s] as u64).sum();
    let lmax = (0..256).filter(|&s| d.freq[s] > 0).map(|s| d.code_len[s]).max().unwrap() as u64;
    let (opt, depth) = huffman_opt(&d.freq);
    let luma = table_is_luma(c, j, ti);
    // the standard tables of either side are what "standard" can mean
    let def: u64 = (0..256).map(|s| d.freq[s] * default_lengths(d.class, luma)[s] as u64).sum();
    if cost > def + 16 {
        return Err(format!("{}: {} bits, the standard table needs {}", name, cost, def));
    }
    if depth <= 16 && cost + lmax > opt {
        return Err(format!(
            "{}: {} bits + {} for the reserved code, a Huffman code needs {} ({} symbols)",
            name, cost, lmax, opt, used
        ));
    }
    l.count("tables", 1);
    l.max("deepest_unlimited_tree", depth as f64);
    if depth > 16 {
        l.count("tables_where_16_bit_limit_binds", 1);
        l.max("limited_cost_over_optimum_permille", (cost + lmax) as f64 * 1000.0 / opt as f64);
    }
    l.cover("symbols_per_table", used as u64);
    l.max("bits_saved_best_permille", 1000.0 * (def.saturating_sub(cost)) as f64 / def.max(1) as f64);
    Ok(())
}

fn c08_px(l: &mut Local, c: &Case, px: &[u8]) -> Res {
    let (v, j) = enc_parse(c, px)?;
    for (i, d) in j.dhts.iter().enumerate() {
        check_dht(l, c, &j, i, d)?;
    }
    // every component's tables exist and nothing else was emitted: covered by symbol sets (unused table = no symbols)
    let _ = v;
    Ok(())
}

fn c08_one(l: &mut Local, c: &Case) -> Res {
    let s = c.to_string();
    l.what(&s);
    let px = c.pixels();
    c08_px(l, c, &px)?;
    l.eval(&s, true);
    Ok(())
}

/// A grey picture whose AC symbols occur 1, 2, 3, 5, 8, ... times (the most frequent one at least that often): together
/// with the reserved weight-1 leaf every merge has a single choice and the unlimited Huffman tree is n levels deep.
/// Built in the coefficient domain; every block is filled to position 63 so that there are no end-of-block symbols.
pub fn fib_picture(n: usize, r: &mut Rng) -> (Case, Vec<u8>) {
    // rare symbols: long runs / bigger sizes; frequent ones: short runs
    let mut syms: Vec<(usize, u32)> = vec![];
    for run in 0..15usize {
        for size in 1..=3u32 {
            syms.push((run, size));
        }
    }
    syms.sort_by_key(|&(run, size)| run * 2 + size as usize);
    syms.truncate(n);
    let mut left: Vec<u64> = vec![0; n];
    let (mut a, mut b) = (1u64, 2u64);
    for i in (1..n).rev() {
        left[i] = a;
        // some slack where single blocks may clip
        (a, b) = (b, a + b + if b > 1000 { 12 } else { 0 });
    }
    left[0] = a;
    let mut blocks: Vec<[i16; 64]> = vec![];
    while left.iter().any(|&x| x > 0) {
        let mut blk = [0i16; 64];
        let mut pos = 0usize;
        while pos < 63 {
            // whatever has the most left and still fits, then fill up with symbol 0
            let mut best = 0;
            for (i, &(run, _)) in syms.iter().enumerate() {
                if pos + run + 1 <= 63 && left[i] > left[best] {
                    best = i;
                }
            }
            left[best] = left[best].saturating_sub(1);
            let (run, size) = syms[best];
            pos += run + 1;
            let m = (1 << (size - 1)) as i16;
            blk[pos] = if r.chance(1, 2) { m } else { -m };
        }
        blocks.push(blk);
    }
    let side = ((blocks.len() as f64).sqrt().ceil() as usize).max(1);
    while blocks.len() % side != 0 {
        let mut blk = [0i16; 64];
        for v in blk[1..].iter_mut() {
            *v = if r.chance(1, 2) { 1 } else { -1 };
        }
        blocks.push(blk);
    }
    let (w, h) = (side * 8, blocks.len() / side * 8);
    let z = zigzag();
    let mut px = vec![128u8; w * h];
    let q = 3.0;
    for (i, blk) in blocks.iter().enumerate() {
        let (bx, by) = (i % side, i / side);
        let mut f = [0f64; 64];
        for k in 0..64 {
            f[z[k]] = blk[k] as f64 * q;
        }
        let s = crate::dct::idct(&f);
        for y in 0..8 {
            for x in 0..8 {
                px[(by * 8 + y) * w + bx * 8 + x] = (s[y * 8 + x] + 128.0).round().clamp(0.0, 255.0) as u8;
            }
        }
    }
    let c = Case {
        ct: 0,
        w: w as u16,
        h: h as u16,
        q: 100,
        opt: true,
        qt: [Qt::Custom(8, 3), Qt::Custom(8, 3)],
        ..Case::default()
    };
    (c, px)
}

pub fn c08(ctx: &Ctx) {
    ctx.run("fibonacci", ctx.n(30, 36), |r, i, l| {
        let n = 2 + i as usize; // up to 31 symbols quickly, see "fibdeep" for the rest
        let n = n.min(27);
        let (mut c, px) = fib_picture(n, r);
        let s = format!("fibonacci picture over {} symbols: {}", n, c);
        l.what(&s);
        c08_px(l, &c, &px)?;
        if n < 20 {
            c.prog = Some(r.range(2, 6) as u8);
            c08_px(l, &c, &px)?;
            c.prog = None;
            c.ri = r.range(1, 20) as u16;
            c08_px(l, &c, &px)?;
        }
        l.eval(&s, true);
        Ok(())
    });
    // codes deeper than 32 levels
    ctx.run("fibdeep", ctx.n(1, 4), |r, i, l| {
        let n = [33usize, 34, 32, 35][i as usize];
        let (c, px) = fib_picture(n, r);
        let s = format!("fibonacci picture over {} symbols: {}", n, c);
        l.what(&s);
        c08_px(l, &c, &px)?;
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("random", ctx.n(8000, 300_000), |r, _, l| {
        let mut c = random_case(r, 8000);
        c.opt = true;
        c08_one(l, &c)
    });
    // few-symbol pictures: one block, flat, two-valued, extremes
    ctx.run("sparse", ctx.n(3000, 60_000), |r, _, l| {
        let mut c = random_case(r, 600);
        c.opt = true;
        c.img = *r.pick(&[3u8, 8, 10, 6, 7, 9]);
        c08_one(l, &c)
    });
    ctx.run("larger", ctx.n(12, 200), |r, _, l| {
        let mut c = random_case(r, 64);
        c.opt = true;
        c.w = r.range(200, 1000) as u16;
        c.h = r.range(200, 700) as u16;
        c.q = *r.pick(&[100u8, 95, 80, 30]);
        c.img = *r.pick(&[0u8, 5, 13, 2, 4]);
        c08_one(l, &c)
    });
    ctx.run("ramps", ctx.n(40, 1000), |r, _, l| ramp_one(l, r));
    ctx.run("big", ctx.n(12, 200), |r, i, l| {
        let mut c = big_case(r, i);
        c.opt = true;
        if r.chance(2, 3) {
            c.img = 2;
        }
        c08_one(l, &c)
    });
}

/// Mid-grey but for a ramp over a few blocks (in raster order), so that only a few restarts meet large DC values: the
/// codes for those must exist. More than 65536 blocks.
fn ramp_one(l: &mut Local, r: &mut Rng) -> Res {
    let cols = r.range(180, 400) as usize;
    let rows = 65536 / cols + r.range(2, 60) as usize;
    let (w, n) = (cols * 8, cols * rows);
    let mut c = Case { ct: 0, w: w as u16, h: rows as u16 * 8, q: *r.pick(&[100u8, 90, 100]), opt: true, img: 3, seed: r.next() >> 24, ..Case::default() };
    c.ri = r.range(300, 65535) as u16;
    c.prog = if r.chance(1, 2) { Some(r.range(2, 5) as u8) } else { None };
    let ri = c.ri as usize;
    // the ramp's top is at a restart, beyond 65536 if there is one
    let k = if n > 65536 / ri * ri + ri { 65536 / ri + 1 } else { r.range(1, (n / ri) as i64) as usize };
    let top = k * ri;
    let mut px = vec![128u8; n * 64];
    let half = (ri / 2).min(380).max(1);
    for b in top.saturating_sub(half)..(top + half).min(n) {
        let v = 128 + (127 * (half - b.abs_diff(top)) / half) as u8;
        let at = (b / cols) * 8 * w + b % cols * 8;
        for y in 0..8 {
            px[at + y * w..][..8].fill(v);
        }
    }
    let s = format!("ramp up to block {} of {}: {}", top, n, c);
    l.what(&s);
    c08_px(l, &c, &px)?;
    l.eval(&s, true);
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn expected_table(q: Qt, quality: u8, luma: bool) -> [u16; 64] {
    let mut o = [0u16; 64];
    match q {
        Qt::Custom(..) => {
            for (i, v) in q.table().unwrap().iter().enumerate() {
                o[i] = (*v).clamp(1, 255);
            }
        }
        Qt::Preset(p) => {
            let base = if luma { &crate::qtables::LUMA } else { &crate::qtables::CHROMA }[p as usize];
            let quality = quality.clamp(1, 100) as u32;
            let scale = if quality < 50 { 5000 / quality } else { 200 - 2 * quality };
            for i in 0..64 {
                o[i] = ((base[i] as u32 * scale + 50) / 100).clamp(1, 255) as u16;
            }
        }
    }
    o
}

fn check_tables(c: &Case, j: &Jpeg) -> Result<(), String> {
    let z = zigzag();
    let sides = c.comp_tables();
    for (i, k) in j.comps.iter().enumerate() {
        let t = j.qt[k.tq].ok_or("component without table")?;
        let want = expected_table(c.qt[sides[i]], c.q, sides[i] == 0);
        for n in 0..64 {
            if t[n] != want[z[n]] {
                return Err(format!(
                    "component #{} quantiser at zig-zag {} is {}, requested {} ({:?}, quality {})",
                    i, n, t[n], want[z[n]], c.qt[sides[i]], c.q
                ));
            }
        }
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    // all presets (both sides) x all qualities, incl. out of range ones
    ctx.run("presets", 81, |r, i, l| {
        let (a, b) = ((i % 9) as u8, (i / 9) as u8);
        let mut last: Option<Vec<[u16; 64]>> = None;
        for q in 0..=255u8 {
            if a != b && !l.ctx.thorough && !r.chance(1, 6) && q > 1 && q != 100 {
                continue;
            }
            let c = Case {
                ct: *r.pick(&[1u8, 5, 6, 8]),
                w: 9,
                h: 9,
                q,
                qt: [Qt::Preset(a), Qt::Preset(b)],
                sf: Some(0),
                img: 0,
                seed: r.next() >> 30,
                ..Case::default()
            };
            let s = c.to_string();
            l.what(&s);
            let px = c.pixels();
            let (_, j) = enc_parse(&c, &px)?;
            check_tables(&c, &j)?;
            check_picture(&c, &planes(&c, &px), &j)?;
            let side = c.comp_tables();
            let cur: Vec<[u16; 64]> = (0..2)
                .map(|s| {
                    let k = side.iter().position(|&x| x == s).unwrap();
                    j.qt[j.comps[k].tq].unwrap()
                })
                .collect();
            if let Some(p) = &last {
                for s in 0..2 {
                    for n in 0..64 {
                        if cur[s][n] > p[s][n] {
                            return Err(format!("quality {} coarsens table {} entry {} from {} to {}", q, s, n, p[s][n], cur[s][n]));
                        }
                    }
                }
            }
            last = Some(cur);
            l.count("tables_checked", 2);
            l.cover("preset_pair_x_quality", (a as u64 * 9 + b as u64) * 256 + q as u64);
            l.eval(&s, true);
        }
        Ok(())
    });
    // default without any call, quality formula on one-component pictures
    ctx.run("defaults", 256, |r, i, l| {
        for ct in 0..9 {
            let c = Case { ct, w: 8, h: 8, q: i as u8, img: 0, seed: r.next() >> 30, ..Case::default() };
            l.what(&c.to_string());
            let px = c.pixels();
            let (_, j) = enc_parse(&c, &px)?;
            check_tables(&c, &j)?;
            l.count("tables_checked", 1);
        }
        l.eval(&format!("default tables at quality {}", i), true);
        Ok(())
    });
    // every value 0..65535 in a custom table: DQT shows it clamped, the coefficients were divided by it
    ctx.run("custom_values", ctx.n(600, 65536), |r, i, l| {
        let v = if l.ctx.thorough {
            i
        } else if i < 520 {
            i
        } else {
            *r.pick(&[511u64, 512, 1023, 1024, 2047, 2048, 2049, 4095, 8191, 8192, 16384, 32767, 32768, 65534, 65535, 40000])
        };
        let mut c = Case { ct: 5, w: 24, h: 16, sf: Some(0), q: r.u8(), seed: r.next() >> 30, ..Case::default() };
        c.qt = [Qt::Custom(8, v), Qt::Custom(10, r.below(64) + 64 * v)];
        c.img = *r.pick(&[7u8, 10, 1, 0]);
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        let (_, j) = enc_parse(&c, &px)?;
        check_tables(&c, &j)?;
        check_picture(&c, &planes(&c, &px), &j)?;
        l.count("tables_checked", 2);
        l.cover("custom_values", v);
        l.eval(&s, true);
        Ok(())
    });
    // custom tables that equal a preset, as it is or scaled: still custom
    ctx.run("custom_preset", 18 * 3, |r, i, l| {
        for (k, q) in [(i, 50u8), (i + 18 * r.below(100), r.range(1, 100) as u8), (i + 18 * 74, 75), (i + 18 * 89, 90)] {
            let kind = 11 + (i / 18) as u8;
            let mut c = Case { ct: *r.pick(&[0u8, 1, 5, 6, 8]), w: 16, h: 16, q, img: 0, seed: r.next() >> 30, ..Case::default() };
            let other = if r.chance(1, 2) { Qt::Preset(0) } else { Qt::Custom(11, r.below(18)) };
            c.qt = [Qt::Custom(kind, k), other];
            for _ in 0..2 {
                let s = c.to_string();
                l.what(&s);
                let px = c.pixels();
                let (_, j) = enc_parse(&c, &px)?;
                check_tables(&c, &j)?;
                l.count("tables_checked", 2);
                l.eval(&s, true);
                c.qt.swap(0, 1);
            }
        }
        Ok(())
    });
    ctx.run("custom_random", ctx.n(3000, 100_000), |r, _, l| {
        let mut c = random_case(r, 2000);
        c.qt[0] = Qt::Custom(r.below(NQT) as u8, r.next() >> 32);
        if r.chance(1, 2) {
            c.qt[1] = Qt::Custom(r.below(NQT) as u8, r.next() >> 32);
        } else {
            c.qt[1] = Qt::Preset(r.below(9) as u8);
        }
        if r.chance(1, 2) {
            c.qt.swap(0, 1);
        }
        c.sf = Some(*r.pick(&[0u8, 0, 8, 3]));
        if c.factors() != (1, 1) {
            c.img = 11;
        }
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        let (_, j) = enc_parse(&c, &px)?;
        check_tables(&c, &j)?;
        check_picture(&c, &planes(&c, &px), &j)?;
        l.count("tables_checked", 2);
        l.eval(&s, true);
        Ok(())
    });
    // custom tables ignore quality completely: identical files
    ctx.run("custom_quality", ctx.n(100, 3000), |r, _, l| {
        let mut c = random_case(r, 500);
        c.sf = Some(r.below(8) as u8);
        c.qt = [Qt::Custom(1, r.next() >> 32), Qt::Custom(1, r.next() >> 32)];
        let px = c.pixels();
        c.q = 50;
        let a = enc(&c, &px)?;
        for q in [0u8, 1, 10, 49, 89, 90, 100, 101, 255] {
            c.q = q;
            l.what(&c.to_string());
            if enc(&c, &px)? != a {
                return Err(format!("quality {} changes a file with custom tables", q));
            }
        }
        // out-of-range qualities equal the nearest valid one
        c.qt = [Qt::Preset(0); 2];
        for (x, y) in [(0u8, 1u8), (101, 100), (200, 100), (255, 100)] {
            c.q = x;
            let a = enc(&c, &px)?;
            c.q = y;
            if a != enc(&c, &px)? {
                return Err(format!("quality {} is not treated as {}", x, y));
            }
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    let _ = jpeg::zigzag;
    let _ = QuantizationTableType::Default;
}

/// Four planes of w x w samples: flat, except for every 36th strip of eight rows.
#[cfg(feature = "std")]
struct Huge {
    w: u16,
    noise: Vec<u8>,
}

#[cfg(feature = "std")]
impl ImageBuffer for Huge {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        JpegColorType::Cmyk
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.w
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let w = self.w as usize;
        for (i, v) in b.iter_mut().enumerate() {
            if (y / 8) % 36 == 5 {
                let o = (y as usize * 7919 + i * 104729) % 4096;
                v.extend_from_slice(&self.noise[o..o + w]);
            } else {
                v.resize(v.len() + w, 128);
            }
        }
    }
}

/// keeps the first bytes only
#[cfg(feature = "std")]
struct Tap(std::sync::Arc<std::sync::Mutex<(Vec<u8>, u64)>>);
#[cfg(feature = "std")]
impl std::io::Write for Tap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut g = self.0.lock().unwrap();
        let n = 4096usize.saturating_sub(g.0.len()).min(b.len());
        g.0.extend_from_slice(&b[..n]);
        g.1 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// More than 2^32 symbols on one table (12 GB, minutes; thorough tier only).
#[cfg(feature = "std")]
pub fn huge(ctx: &Ctx) {
    ctx.run("huge", 1, |r, _, l| {
        let w = 38800u16;
        let s = format!("CMYK {}x{}, flat but for every 36th strip, 64 progressive scans, optimised tables", w, w);
        l.what(&s);
        let out = std::sync::Arc::new(std::sync::Mutex::new((vec![], 0)));
        let img = Huge { w, noise: (0..w as usize + 4096).map(|_| r.next() as u8).collect() };
        let mut e = Encoder::new(Tap(out.clone()), 100);
        e.set_progressive_scans(64);
        e.set_optimized_huffman_tables(true);
        guard(move || e.encode_image(img)).map_err(|p| format!("panic: {}", p))?.map_err(|e| format!("error: {}", e))?;
        let g = out.lock().unwrap();
        l.count("bytes_written", g.1);
        // DHT segments in the part that was kept
        let d = &g.0;
        let mut seen = 0;
        let mut i = 2;
        while i + 4 <= d.len() && d[i] == 0xFF && d[i + 1] != 0xDA {
            let n = u16::from_be_bytes([d[i + 2], d[i + 3]]) as usize;
            if d[i + 1] == 0xC4 {
                let mut p = i + 4;
                while p + 17 <= (i + 2 + n).min(d.len()) {
                    let count: usize = d[p + 1..p + 17].iter().map(|&x| x as usize).sum();
                    if d[p] >> 4 == 1 && p + 17 + count <= d.len() {
                        // 35 of 36 strips consist of zeros: that symbol deserves the one-bit code
                        if d[p + 1] != 1 || d[p + 17] != 0 {
                            return Err(format!("table {:#x}: the symbol of 97 percent of all events has no one-bit code (lengths {:?})", d[p], &d[p + 1..p + 17]));
                        }
                        seen += 1;
                    }
                    p += 17 + count;
                }
            }
            i += 2 + n;
        }
        if seen != 2 {
            return Err(format!("{} AC tables found", seen));
        }
        l.count("huge_tables_checked", seen);
        l.eval(&s, true);
        Ok(())
    });
}
