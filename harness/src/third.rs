//! C21: independent decoders. The expectation is an interval per pixel and channel, computed from the monitor's own
//! decode (whose coefficients are first checked against the source picture).
use crate::c_stream::*;
use crate::case::*;
use crate::ctx::*;
use crate::dct;
use crate::jpeg::{zigzag, Jpeg};
use crate::model::*;
use crate::rng::Rng;

pub struct Expect {
    pub w: usize,
    pub h: usize,
    /// channels of the stored colour space
    pub n: usize,
    /// 0 grey, 1 YCbCr, 2 CMYK (stored values), 3 YCCK
    pub kind: u8,
    /// per pixel and channel, upsampled in any sensible way
    pub lo: Vec<u8>,
    pub hi: Vec<u8>,
    /// per pixel R, G, B (kinds 1 and 3)
    pub rlo: Vec<u8>,
    pub rhi: Vec<u8>,
}

/// Inverse DCTs in use differ from the exact one by about a level.
const IDCT_TOL: f64 = 1.6;

pub fn expect(c: &Case, j: &Jpeg) -> Expect {
    let (w, h, n) = (j.width, j.height, j.comps.len());
    let z = zigzag();
    let kind = match c.ct {
        0 => 0,
        6 => 2,
        7 | 8 => 3,
        _ => 1,
    };
    let mut e = Expect { w, h, n, kind, lo: vec![0; w * h * n], hi: vec![0; w * h * n], rlo: vec![], rhi: vec![] };
    for (ci, comp) in j.comps.iter().enumerate() {
        let (hs, vs) = (j.hmax / comp.h, j.vmax / comp.v);
        let q: Vec<f64> = j.qt[comp.tq].unwrap().iter().map(|&x| x as f64).collect();
        let (cw, ch) = (w.div_ceil(hs), h.div_ceil(vs));
        let (pw, ph) = (comp.bw * 8, comp.bh * 8);
        let mut plane = vec![0f64; pw * ph];
        for by in 0..comp.bh {
            for bx in 0..comp.bw {
                let b = j.block(ci, bx, by);
                let mut f = [0f64; 64];
                for k in 0..64 {
                    f[z[k]] = b[k] as f64 * q[k];
                }
                let s = dct::idct(&f);
                for y in 0..8 {
                    for x in 0..8 {
                        plane[(by * 8 + y) * pw + bx * 8 + x] = s[y * 8 + x] + 128.0;
                    }
                }
            }
        }
        let (mut clo, mut chi) = (vec![0u8; cw * ch], vec![0u8; cw * ch]);
        let rx = if hs > 1 { 1 } else { 0 };
        let ry = if vs > 1 { 1 } else { 0 };
        for y in 0..ch {
            for x in 0..cw {
                let (mut a, mut b) = (f64::MAX, f64::MIN);
                for yy in y.saturating_sub(ry)..=(y + ry).min(ph - 1) {
                    for xx in x.saturating_sub(rx)..=(x + rx).min(pw - 1) {
                        a = a.min(plane[yy * pw + xx]);
                        b = b.max(plane[yy * pw + xx]);
                    }
                }
                clo[y * cw + x] = (a - IDCT_TOL).floor().clamp(0.0, 255.0) as u8;
                chi[y * cw + x] = (b + IDCT_TOL).ceil().clamp(0.0, 255.0) as u8;
            }
        }
        for y in 0..h {
            for x in 0..w {
                let k = (y / vs) * cw + x / hs;
                e.lo[(y * w + x) * n + ci] = clo[k];
                e.hi[(y * w + x) * n + ci] = chi[k];
            }
        }
    }
    if kind == 1 || kind == 3 {
        e.rlo = vec![0; w * h * 3];
        e.rhi = vec![0; w * h * 3];
        for p in 0..w * h {
            let l = |k: usize| e.lo[p * n + k] as f64 - if k > 0 { 128.0 } else { 0.0 };
            let g = |k: usize| e.hi[p * n + k] as f64 - if k > 0 { 128.0 } else { 0.0 };
            let lo = [l(0) + 1.402 * l(2), l(0) - 0.344136 * g(1) - 0.714136 * g(2), l(0) + 1.772 * l(1)];
            let hi = [g(0) + 1.402 * g(2), g(0) - 0.344136 * l(1) - 0.714136 * l(2), g(0) + 1.772 * g(1)];
            for k in 0..3 {
                e.rlo[p * 3 + k] = (lo[k] - 1.0).floor().clamp(0.0, 255.0) as u8;
                e.rhi[p * 3 + k] = (hi[k] + 1.0).ceil().clamp(0.0, 255.0) as u8;
            }
        }
    }
    e
}

/// pictures decoders can be compared on: moderate size
pub fn pic(r: &mut Rng, i: u64) -> Case {
    let mut c = random_case(r, 5000);
    c.ct = (i % 9) as u8;
    c.sf = Some(((i / 9) % 8) as u8);
    let m = i / 72;
    c.prog = if m & 1 == 1 { Some(r.range(2, 12) as u8) } else { None };
    c.opt = m & 2 == 2;
    c
}

fn check_out(e: &Expect, got: &[u8], want_lo: impl Fn(usize, usize) -> (u8, u8), n: usize, who: &str) -> Res {
    if got.len() != e.w * e.h * n {
        return Err(format!("{}: {} bytes of pixels, expected {}", who, got.len(), e.w * e.h * n));
    }
    for p in 0..e.w * e.h {
        for k in 0..n {
            let (lo, hi) = want_lo(p, k);
            let v = got[p * n + k];
            if v < lo || v > hi {
                return Err(format!("{}: pixel ({},{}) channel {} decodes to {}, expected {}..{}", who, p % e.w, p / e.w, k, v, lo, hi));
            }
        }
    }
    Ok(())
}

fn jd_one(l: &mut Local, c: &Case) -> Res {
    let s = c.to_string();
    l.what(&s);
    let px = c.pixels();
    let (v, j) = enc_parse(c, &px)?;
    let pl = planes(c, &px);
    check_picture(c, &pl, &j)?;
    let e = expect(c, &j);
    let mut d = jpeg_decoder::Decoder::new(&v[..]);
    let got = guard(|| d.decode()).map_err(|p| format!("decoder panic: {}", p))?.map_err(|e| format!("jpeg-decoder refuses the file: {}", e))?;
    let info = d.info().ok_or("no info")?;
    if (info.width, info.height) != (c.w, c.h) {
        return Err(format!("jpeg-decoder sees {}x{}", info.width, info.height));
    }
    let n = e.n;
    match e.kind {
        0 => check_out(&e, &got, |p, _| (e.lo[p], e.hi[p]), 1, "jpeg-decoder")?,
        1 => check_out(&e, &got, |p, k| (e.rlo[p * 3 + k], e.rhi[p * 3 + k]), 3, "jpeg-decoder")?,
        2 => check_out(&e, &got, |p, k| (255 - e.hi[p * n + k], 255 - e.lo[p * n + k]), 4, "jpeg-decoder")?,
        _ => check_out(
            &e,
            &got,
            |p, k| if k < 3 { (e.rlo[p * 3 + k], e.rhi[p * 3 + k]) } else { (255 - e.hi[p * n + 3], 255 - e.lo[p * n + 3]) },
            4,
            "jpeg-decoder",
        )?,
    }
    if let Some(i) = &c.icc {
        if i.0 > 0 && d.icc_profile().as_deref() != Some(&Case::icc_data(i)[..]) && !c.app.iter().any(|a| a.0 == 2) {
            return Err("jpeg-decoder does not return the ICC profile".into());
        }
        l.count("profiles_read_back", 1);
    }
    l.count("pixels_compared_jpeg_decoder", (e.w * e.h) as u64);
    l.cover("colour_x_factor_x_mode", c.ct as u64 * 1000 + c.factors().0 as u64 * 100 + c.factors().1 as u64 * 10 + c.prog.is_some() as u64 * 2 + c.opt as u64);
    l.eval(&s, true);
    Ok(())
}

pub fn c21(ctx: &Ctx) {
    ctx.run("matrix", ctx.n(288 * 4, 288 * 100), |r, i, l| jd_one(l, &pic(r, i)));
    ctx.run("random", ctx.n(2500, 60_000), |r, _, l| {
        let c = random_case(r, 6000);
        jd_one(l, &c)
    });
    ctx.run("scans", 63 * 2, |r, i, l| {
        let mut c = random_case(r, 1500);
        c.prog = Some(2 + (i % 63) as u8);
        c.opt = i >= 63;
        jd_one(l, &c)
    });
    ctx.run("large", ctx.n(6, 60), |r, i, l| {
        let mut c = random_case(r, 64);
        (c.w, c.h) = [(1200u16, 700u16), (3000, 40), (40, 3000), (65535, 1), (1, 65535), (513, 513)][i as usize % 6];
        jd_one(l, &c)
    });
    ctx.run("big", ctx.n(8, 100), |r, i, l| {
        let c = big_case(r, i);
        jd_one(l, &c)
    });
}

/// Write NNN.jpg / NNN.ref / index for decoders that run as other processes.
pub fn corpus(dir: &str, seed: u64, n: u64, thorough: bool) {
    let _ = thorough;
    let mut index = String::new();
    for i in 0..n {
        let mut r = Rng::derive(seed, "corpus", i);
        let mut c = if i < 288 { pic(&mut r, i) } else { random_case(&mut r, 5000) };
        if i % 3 == 0 {
            // content on which subsampled channels are comparable too
            c.img = 11;
        }
        let px = c.pixels();
        let res = enc_parse(&c, &px).and_then(|(v, j)| {
            check_picture(&c, &planes(&c, &px), &j)?;
            Ok((v, j))
        });
        let (v, j) = match res {
            Ok(x) => x,
            Err(e) => {
                println!("BAD\t{}\t{}\t{}", i, e, c);
                continue;
            }
        };
        let e = expect(&c, &j);
        let mut o: Vec<u8> = b"REF1".to_vec();
        for x in [e.w as u32, e.h as u32, e.n as u32, e.kind as u32] {
            o.extend_from_slice(&x.to_be_bytes());
        }
        o.extend_from_slice(&e.lo);
        o.extend_from_slice(&e.hi);
        o.extend_from_slice(&e.rlo);
        o.extend_from_slice(&e.rhi);
        std::fs::write(format!("{}/{:05}.jpg", dir, i), &v).unwrap();
        std::fs::write(format!("{}/{:05}.ref", dir, i), &o).unwrap();
        index += &format!("{:05}\t{}\n", i, c);
    }
    std::fs::write(format!("{}/index", dir), index).unwrap();
    println!("END {}", n);
}
