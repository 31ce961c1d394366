//! C17 colour and layouts, C18 determinism and isolation, C19 custom image sources, C22 memory.
use crate::c_stream::*;
use crate::case::*;
use crate::ctx::*;
use crate::rng::Rng;
use crate::sink::*;
use jpeg_encoder::*;
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------- C17

fn ycc(r: u8, g: u8, b: u8) -> [f64; 3] {
    let (r, g, b) = (r as f64, g as f64, b as f64);
    [
        0.299 * r + 0.587 * g + 0.114 * b,
        128.0 + (b - (0.299 * r + 0.587 * g + 0.114 * b)) / 1.772,
        128.0 + (r - (0.299 * r + 0.587 * g + 0.114 * b)) / 1.402,
    ]
}

const HALF: f64 = 0.51; // half a level plus the 16-bit fixed point error of the constants (< 0.006)

fn close(got: [u8; 3], want: [f64; 3]) -> Result<f64, String> {
    let mut m = 0f64;
    for i in 0..3 {
        let d = (got[i] as f64 - want[i]).abs();
        m = m.max(d);
        if d > HALF {
            return Err(format!("{} is {}, the exact value is {:.4}", ["Y", "Cb", "Cr"][i], got[i], want[i]));
        }
    }
    Ok(m)
}

fn same(a: &Case, pa: &[u8], b: &Case, pb: &[u8], l: &mut Local) -> Res {
    l.what(&format!("{} versus {}", a, b));
    let x = enc(a, pa)?;
    let y = enc(b, pb)?;
    if x != y {
        let at = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
        return Err(format!("the files differ ({} and {} bytes, first at byte {})", x.len(), y.len(), at));
    }
    l.count("equal_file_pairs", 1);
    Ok(())
}

/// the same picture in layout `ct`, from RGB triples
fn relayout(rgb: &[u8], ct: u8, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    // alpha: noise, one value everywhere, one value nearly everywhere
    let (style, v) = (r.below(4), *r.pick(&[0u8, 255, 1, 254, 128, 127]));
    let mut alpha = |k: usize| match style {
        0 | 1 => r.u8(),
        2 => v,
        _ => if k % 61 == 7 { !v } else { v },
    };
    for (k, p) in rgb.chunks_exact(3).enumerate() {
        match ct {
            1 => o.extend_from_slice(p),
            2 => o.extend_from_slice(&[p[0], p[1], p[2], alpha(k)]),
            3 => o.extend_from_slice(&[p[2], p[1], p[0]]),
            4 => o.extend_from_slice(&[p[2], p[1], p[0], alpha(k)]),
            _ => {
                let (y, cb, cr) = rgb_to_ycbcr(p[0], p[1], p[2]);
                o.extend_from_slice(&[y, cb, cr]);
            }
        }
    }
    o
}

/// every layout of one picture gives the file of the equivalent data
fn layouts_one(l: &mut Local, r: &mut Rng, mut c: Case) -> Res {
    c.buf = false;
    c.extra = 0;
    c.ct = 1;
    let rgb = c.pixels();
    for ct in [2u8, 3, 4, 5] {
        let mut d = c.clone();
        d.ct = ct;
        let px = relayout(&rgb, ct, r);
        same(&c, &rgb, &d, &px, l)?;
        if ct == 2 || ct == 4 {
            // other alpha
            let px2 = relayout(&rgb, ct, r);
            same(&d, &px, &d, &px2, l)?;
        }
        // bytes after the image
        let mut more = px.clone();
        let n = *r.pick(&[1usize, 2, 3, 4, 7, 31, 32, 33, 1000]);
        more.extend((0..n).map(|_| r.u8()));
        same(&d, &px, &d, &more, l)?;
        l.cover("width_x_layout", (c.w as u64) << 8 | ct as u64);
    }
    // four component layouts
    let mut d = c.clone();
    d.ct = 6;
    let cmyk = d.pixels();
    let mut e = c.clone();
    e.ct = 6;
    e.buf = true;
    same(&d, &cmyk, &e, &cmyk, l)?;
    let mut d = c.clone();
    d.ct = 7;
    let mut e = c.clone();
    e.ct = 8;
    let mut ycck = vec![];
    for p in cmyk.chunks_exact(4) {
        let (y, cb, cr) = rgb_to_ycbcr(p[0], p[1], p[2]);
        ycck.extend_from_slice(&[y, cb, cr, 255 - p[3]]);
    }
    same(&d, &cmyk, &e, &ycck, l)?;
    e.buf = true;
    same(&d, &cmyk, &e, &ycck, l)?;
    // all of them against a source that supplies the samples of the component planes
    for ct in 0..9u8 {
        let mut d = c.clone();
        d.ct = ct;
        let px = d.pixels();
        let mut e = d.clone();
        e.buf = true;
        same(&d, &px, &e, &px, l)?;
    }
    l.eval(&c.to_string(), true);
    Ok(())
}

pub fn c17(ctx: &Ctx) {
    // the public conversion functions, every colour
    ctx.run("function", 256, |_, i, l| {
        let r = i as u8;
        let mut worst = 0f64;
        for g in 0..=255u8 {
            for b in 0..=255u8 {
                let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
                worst = worst.max(close([y, cb, cr], ycc(r, g, b)).map_err(|e| format!("rgb_to_ycbcr({},{},{}): {}", r, g, b, e))?);
                let k = (g as usize * 7 + b as usize * 13 + r as usize) as u8;
                let (y2, cb2, cr2, k2) = cmyk_to_ycck(r, g, b, k);
                close([y2, cb2, cr2], ycc(r, g, b)).map_err(|e| format!("cmyk_to_ycck({},{},{},{}): {}", r, g, b, k, e))?;
                if k2 != 255 - k {
                    return Err(format!("cmyk_to_ycck({},{},{},{}): K becomes {}", r, g, b, k, k2));
                }
            }
        }
        l.count("colours_through_function", 65536);
        l.max("worst_distance_from_exact", worst);
        l.eval(&format!("all colours with first channel {}", i), true);
        Ok(())
    });
    // every colour through the encoder's own path for each layout: same file as the component planes of the exact oracle
    ctx.run("encoder_exhaustive", 64 * 5, |r, i, l| {
        let ct = [1u8, 2, 3, 4, 7][(i % 5) as usize];
        let hi = i / 5;
        let (w, h) = (512usize, 512usize);
        let c = Case { ct, w: w as u16, h: h as u16, q: 100, sf: Some(0), qt: [Qt::Custom(0, 0); 2], ..Case::default() };
        l.what(&format!("colour cube slice {} as {}", hi, c));
        let n = c.bpp();
        let mut px = vec![0u8; w * h * n];
        let mut planes: Vec<Vec<u8>> = vec![vec![0; w * h]; if ct == 7 { 4 } else { 3 }];
        for k in 0..w * h {
            // scrambled order so that neighbours in SIMD lanes differ in every channel
            let v = ((hi as usize) << 18 | k).wrapping_mul(0x9E3779) & 0xFFFFFF;
            let rgb = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
            let f = r.u8();
            let d = &mut px[k * n..k * n + n];
            match ct {
                1 | 2 | 7 => d[..3].copy_from_slice(&rgb),
                _ => d[..3].copy_from_slice(&[rgb[2], rgb[1], rgb[0]]),
            }
            if n == 4 {
                d[3] = f;
            }
            // checked against the exact formula in "function"
            let (y, cb, cr) = rgb_to_ycbcr(rgb[0], rgb[1], rgb[2]);
            planes[0][k] = y;
            planes[1][k] = cb;
            planes[2][k] = cr;
            if ct == 7 {
                planes[3][k] = 255 - f;
            }
        }
        let x = enc(&c, &px)?;
        let mut y = vec![];
        guard(|| {
            let mut e = Encoder::new(&mut y as Dst, c.q);
            c.configure(&mut e)?;
            e.encode_image(By(&PlaneImage { case: &c, planes, w: c.w, h: c.h }))
        })
        .map_err(|p| format!("panic: {}", p))?
        .map_err(|e| format!("{:?}", e))?;
        if x != y {
            return Err(format!("the {} file is not the file of the exactly converted samples", CTS[ct as usize].0));
        }
        l.count("colours_through_encoder", (w * h) as u64);
        l.eval(&format!("colour cube slice {} as {}", hi, CTS[ct as usize].0), true);
        Ok(())
    });
    // independent of any function of the crate: constant blocks, the DC coefficient is 8 (v - 128)
    ctx.run("flat", ctx.n(160, 4096 * 5), |r, i, l| {
        let ct = [1u8, 2, 3, 4, 7][(i % 5) as usize];
        let slice = if l.ctx.thorough { i / 5 } else { r.below(4096) };
        let c = Case { ct, w: 512, h: 512, q: 100, sf: Some(0), qt: [Qt::Custom(0, 0); 2], opt: i % 3 == 0, ..Case::default() };
        l.what(&format!("flat blocks, slice {} as {}", slice, c));
        let n = c.bpp();
        let mut px = vec![0u8; 512 * 512 * n];
        let colour = |b: usize| {
            let v = ((slice as usize) << 12 | b).wrapping_mul(0x9E3779) & 0xFFFFFF;
            [(v >> 16) as u8, (v >> 8) as u8, v as u8, (b ^ (b >> 5)) as u8]
        };
        for y in 0..512 {
            for x in 0..512 {
                let k = y * 512 + x;
                let q = colour((y / 8) * 64 + x / 8);
                let d = &mut px[k * n..k * n + n];
                match ct {
                    1 | 2 | 7 => d[..3].copy_from_slice(&q[..3]),
                    _ => d[..3].copy_from_slice(&[q[2], q[1], q[0]]),
                }
                if n == 4 {
                    d[3] = q[3];
                }
            }
        }
        let (_, j) = enc_parse(&c, &px)?;
        for b in 0..4096 {
            let q = colour(b);
            let mut got = vec![];
            for k in 0..j.comps.len() {
                let blk = j.block(k, b % 64, b / 64);
                if blk[1..].iter().any(|&v| v != 0) {
                    return Err(format!("a constant block of colour {:?} has AC coefficients", q));
                }
                let v = blk[0] as f64 / 8.0 + 128.0;
                if v.fract() != 0.0 || !(0.0..=255.0).contains(&v) {
                    return Err(format!("colour {:?}: component {} decodes to {}", q, k, v));
                }
                got.push(v as u8);
            }
            close([got[0], got[1], got[2]], ycc(q[0], q[1], q[2])).map_err(|e| format!("colour {:?}: {}", q, e))?;
            if ct == 7 && got[3] != 255 - q[3] {
                return Err(format!("K {} is stored as {}", q[3], got[3]));
            }
        }
        l.count("colours_decoded_from_flat_blocks", 4096);
        l.eval(&format!("flat slice {} as {}", slice, CTS[ct as usize].0), true);
        Ok(())
    });
    // stored samples of the pass-through and inverted layouts
    ctx.run("pass_through", 256, |_, i, l| {
        for ct in [0u8, 5, 6, 8] {
            let c = Case { ct, w: 8, h: 8, q: 100, sf: Some(0), qt: [Qt::Custom(0, 0); 2], ..Case::default() };
            l.what(&format!("value {} as {}", i, c));
            let v = i as u8;
            let n = c.bpp();
            let vals = [v, v.wrapping_mul(37).wrapping_add(11), 255 - v, v.rotate_left(3)];
            let mut px = vec![];
            for _ in 0..64 {
                px.extend_from_slice(&vals[..n]);
            }
            let (_, j) = enc_parse(&c, &px)?;
            for k in 0..n {
                let want = if ct == 6 { 255 - vals[k] } else { vals[k] } as i32;
                let dc = j.block(k, 0, 0)[0] as i32;
                if dc != 8 * (want - 128) {
                    return Err(format!("component {} of {:?} as {} has DC {}, expected {}", k, &vals[..n], CTS[ct as usize].0, dc, 8 * (want - 128)));
                }
            }
            l.count("stored_values_checked", n as u64);
        }
        l.eval(&format!("stored value {}", i), true);
        Ok(())
    });
    ctx.run("layouts", ctx.n(40 * 60, 40 * 3000), |r, i, l| {
        let mut c = random_case(r, 1600);
        c.w = (1 + i % 40) as u16;
        c.h = r.range(1, 40) as u16;
        layouts_one(l, r, c)
    });
    ctx.run("layouts_any", ctx.n(600, 60_000), |r, _, l| {
        let c = random_case(r, 9000);
        layouts_one(l, r, c)
    });
    // rows and columns of every magnitude
    ctx.run("layouts_long", ctx.n(110, 4000), |r, i, l| {
        let mut c = random_case(r, 64);
        let bits = 6 + i % 11;
        let a = ((1u64 << bits) - 20 + r.below(1 << bits.min(15))).min(65535) as u16;
        let b = r.range(1, if bits < 13 { 20 } else { 3 }) as u16;
        (c.w, c.h) = if i / 11 % 2 == 0 { (a, b) } else { (b, a) };
        layouts_one(l, r, c)
    });
    ctx.run("layouts_big", ctx.n(10, 150), |r, i, l| {
        let mut c = big_case(r, i / 2);
        c.buf = false;
        c.ct = 1;
        let rgb = c.pixels();
        let mut d = c.clone();
        if i % 2 == 0 {
            d.ct = *r.pick(&[2u8, 3, 4, 5]);
            let px = relayout(&rgb, d.ct, r);
            same(&c, &rgb, &d, &px, l)?;
        } else {
            d.ct = *r.pick(&[0u8, 5, 6, 7, 8]);
            let px = d.pixels();
            let mut e = d.clone();
            e.buf = true;
            same(&d, &px, &e, &px, l)?;
        }
        l.eval(&d.to_string(), true);
        Ok(())
    });
}

// ---------------------------------------------------------------- C18

/// one neighbouring request: a single setting changed
fn neighbour(c: &Case, r: &mut Rng) -> Case {
    let o = random_case(r, 3000);
    let mut d = c.clone();
    match r.below(13) {
        0 => d.ct = o.ct,
        1 => (d.w, d.h) = (o.w, o.h),
        2 => d.q = o.q,
        3 => d.sf = o.sf,
        4 => d.prog = o.prog,
        5 => d.opt = !d.opt,
        6 => d.ri = o.ri,
        7 => d.dens = o.dens,
        8 => d.qt = o.qt,
        9 => d.app = vec![(r.range(1, 15) as u8, r.below(200) as usize, 9)],
        10 => d.img = o.img,
        11 => d.seed = o.seed,
        _ => d = o,
    }
    d
}

struct PanicImage<'a>(PlaneImage<'a>, u16);
impl<'a> ImageBuffer for PanicImage<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.0.get_jpeg_color_type()
    }
    fn width(&self) -> u16 {
        self.0.w
    }
    fn height(&self) -> u16 {
        self.0.h
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        if y >= self.1 {
            panic!("injected source failure");
        }
        self.0.fill_buffers(y, b)
    }
}

/// do something else with the library: succeed, fail in the sink, panic in the sink or in the source
fn disturb(d: &Case, r: &mut Rng, l: &mut Local) {
    let px = d.pixels();
    match r.below(6) {
        0 => {
            let (s, _) = Sink::new(Fault::At { at: r.below(900) as usize, kind: r.below(12) as u8 }, 0, 0, 3);
            let _ = guard(|| d.encode_to(s, &px));
            l.count("disturbed_by_write_error", 1);
        }
        1 => {
            let (s, _) = Sink::new(Fault::Panic { at: r.below(900) as usize }, 0, 0, 3);
            let _ = guard(|| d.encode_to(s, &px));
            l.count("disturbed_by_sink_panic", 1);
        }
        2 => {
            let im = PanicImage(PlaneImage { case: d, planes: planes(d, &px), w: d.w, h: d.h }, r.below(d.h as u64) as u16);
            let _ = guard(|| {
                let mut o = vec![];
                let mut e = Encoder::new(&mut o as Dst, d.q);
                d.configure(&mut e)?;
                e.encode_image(By(&im))
            });
            l.count("disturbed_by_source_panic", 1);
        }
        3 => {
            let _ = guard(|| d.encode_px(&px[..px.len() / 2]));
            l.count("disturbed_by_short_buffer", 1);
        }
        _ => {
            let _ = guard(|| d.encode_px(&px));
            l.count("disturbed_by_success", 1);
        }
    }
}

pub fn c18(ctx: &Ctx) {
    ctx.run("histories", ctx.n(3000, 100_000), |r, _, l| {
        let c = random_case(r, 3000);
        l.what(&c.to_string());
        let px = c.pixels();
        let first = enc(&c, &px)?;
        for _ in 0..3 {
            let d = neighbour(&c, r);
            l.what(&format!("{} after {}", c, d));
            disturb(&d, r, l);
            if enc(&c, &px)? != first {
                return Err("encoding the same request again gives another file".into());
            }
            l.count("repeats_compared", 1);
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // encoders that are alive at the same time
    ctx.run("interleaved", ctx.n(1500, 50_000), |r, _, l| {
        let a = random_case(r, 2000);
        let b = neighbour(&a, r);
        l.what(&format!("{} while {} is being prepared", a, b));
        let (pa, pb) = (a.pixels(), b.pixels());
        let (fa, fb) = (enc(&a, &pa)?, enc(&b, &pb)?);
        let (mut oa, mut ob) = (vec![], vec![]);
        guard(|| {
            let mut ea = Encoder::new(&mut oa as Dst, a.q);
            let mut eb = Encoder::new(&mut ob as Dst, b.q);
            if r.chance(1, 2) {
                b.configure(&mut eb)?;
                a.configure(&mut ea)?;
            } else {
                a.configure(&mut ea)?;
                b.configure(&mut eb)?;
            }
            let run = |e: Encoder<Dst>, c: &Case, px: &[u8]| {
                if c.buf {
                    e.encode_image(By(&PlaneImage { case: c, planes: planes(c, px), w: c.w, h: c.h }))
                } else {
                    e.encode(px, c.w, c.h, c.color())
                }
            };
            if r.chance(1, 2) {
                run(eb, &b, &pb)?;
                run(ea, &a, &pa)
            } else {
                run(ea, &a, &pa)?;
                run(eb, &b, &pb)
            }
        })
        .map_err(|p| format!("panic: {}", p))?
        .map_err(|e| format!("{:?}", e))?;
        if oa != fa || ob != fb {
            return Err("two encoders alive at once do not give the files each gives alone".into());
        }
        l.count("encoder_pairs", 1);
        l.eval(&format!("{} | {}", a, b), true);
        Ok(())
    });
    // an encode running inside another encode's callbacks (source and destination)
    ctx.run("nested", ctx.n(300, 8000), |r, _, l| {
        struct Nest<'a>(PlaneImage<'a>, &'a Case, &'a [u8], RefCell<Vec<Vec<u8>>>);
        impl<'a> ImageBuffer for Nest<'a> {
            fn get_jpeg_color_type(&self) -> JpegColorType {
                self.0.get_jpeg_color_type()
            }
            fn width(&self) -> u16 {
                self.0.w
            }
            fn height(&self) -> u16 {
                self.0.h
            }
            fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
                if self.3.borrow().len() < 4 {
                    let v = self.1.encode_px(self.2).unwrap_or_default();
                    self.3.borrow_mut().push(v);
                }
                self.0.fill_buffers(y, b)
            }
        }
        let mut a = random_case(r, 900);
        a.buf = true;
        let b = neighbour(&a, r);
        l.what(&format!("{} during {}", b, a));
        let (pa, pb) = (a.pixels(), b.pixels());
        let (fa, fb) = (enc(&a, &pa)?, enc(&b, &pb)?);
        let im = Nest(PlaneImage { case: &a, planes: planes(&a, &pa), w: a.w, h: a.h }, &b, &pb, RefCell::default());
        let mut o = vec![];
        let inner = guard(|| {
            let mut e = Encoder::new(&mut o as Dst, a.q);
            a.configure(&mut e)?;
            e.encode_image(By(&im))
        })
        .map_err(|p| format!("panic: {}", p))?;
        inner.map_err(|e| format!("{:?}", e))?;
        if o != fa || im.3.borrow().iter().any(|v| v != &fb) {
            return Err("an encode inside another one's source callback changes a file".into());
        }
        l.count("nested_encodes", im.3.borrow().len() as u64);
        l.eval(&format!("{} in {}", b, a), true);
        Ok(())
    });
    // far more encodes by one thread than any counter of 16 bits holds
    ctx.run("many", ctx.n(4, 24), |r, i, l| {
        let list: Vec<Case> = (0..6)
            .map(|k| {
                let mut c = random_case(r, 64);
                c.icc = None;
                c.app.truncate(1);
                c.opt = k == 5;
                c
            })
            .collect();
        l.what(&format!("a long series that begins with {}", list[0]));
        let px: Vec<Vec<u8>> = list.iter().map(|c| c.pixels()).collect();
        let mut first = vec![];
        for (c, p) in list.iter().zip(&px) {
            first.push(enc(c, p)?);
        }
        let n = 70_000 + i * 1000;
        let mut o = vec![];
        for k in 0..n {
            // optimised tables take longest
            let j = if k % 200 == 0 { 5 } else { r.below(5) as usize };
            o.clear();
            let c = &list[j];
            if c.encode_to(&mut o, &px[j]).is_err() || o != first[j] {
                return Err(format!("encode {} of a series gives another file for {}", k, c));
            }
        }
        l.count("encodes_in_series", n);
        l.max("longest_series", n as f64);
        l.eval(&format!("{} encodes of 6 requests", n), true);
        Ok(())
    });
    // many threads at once, each over the same requests in its own order
    ctx.run_t("concurrent", ctx.n(24, 600), 1, |r, i, l| {
        let list: Vec<Case> = (0..24)
            .map(|k| {
                let mut c = random_case(r, 3000);
                if k % 3 == 0 {
                    c.opt = true;
                }
                c
            })
            .collect();
        l.what(&format!("concurrent batch {} starting with {}", i, list[0]));
        let px: Vec<Vec<u8>> = list.iter().map(|c| c.pixels()).collect();
        let mut alone = vec![];
        for (c, p) in list.iter().zip(&px) {
            alone.push(enc(c, p)?);
        }
        let nt = *r.pick(&[2u64, 4, 8, 16, 32]);
        let base = r.next();
        let bad: std::sync::Mutex<Vec<String>> = Default::default();
        let gate = std::sync::Barrier::new(nt as usize);
        std::thread::scope(|s| {
            for t in 0..nt {
                let (list, px, alone, bad, gate) = (&list, &px, &alone, &bad, &gate);
                s.spawn(move || {
                    let mut r = Rng::derive(base, "thread", t);
                    gate.wait();
                    for _ in 0..list.len() {
                        let k = r.below(list.len() as u64) as usize;
                        match enc(&list[k], &px[k]) {
                            Ok(v) if v == alone[k] => {}
                            Ok(_) => bad.lock().unwrap().push(format!("{}: another file on a thread", list[k])),
                            Err(e) => bad.lock().unwrap().push(format!("{}: {}", list[k], e)),
                        }
                        if r.chance(1, 6) {
                            std::thread::yield_now();
                        }
                    }
                });
            }
        });
        l.count("concurrent_encodes", nt * list.len() as u64);
        l.cover("thread_counts", nt);
        l.eval(&format!("{} threads over {} requests", nt, list.len()), true);
        match bad.into_inner().unwrap().pop() {
            Some(b) => Err(b),
            None => Ok(()),
        }
    });
    // big pictures, repeated with other work in between
    ctx.run("big", ctx.n(10, 100), |r, i, l| {
        let c = big_case(r, i);
        l.what(&c.to_string());
        let px = c.pixels();
        let a = enc(&c, &px)?;
        let k = i + 1 + r.below(4);
        let d = big_case(r, k);
        let _ = enc(&d, &d.pixels())?;
        if enc(&c, &px)? != a {
            return Err("a big picture encoded twice gives two files".into());
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // an encode inside the destination's callbacks, during unwinding, while a thread's own data is being destroyed
    ctx.run("odd_moments", ctx.n(900, 30_000), |r, i, l| {
        struct Dive<'a>(Vec<u8>, &'a Case, &'a [u8], Vec<Option<Vec<u8>>>, u64);
        #[cfg(feature = "std")]
        impl<'a> std::io::Write for Dive<'a> {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                self.call();
                self.0.extend_from_slice(b);
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                self.call();
                Ok(())
            }
        }
        #[cfg(not(feature = "std"))]
        impl<'a> JfifWrite for Dive<'a> {
            fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
                self.call();
                self.0.extend_from_slice(b);
                Ok(())
            }
        }
        impl<'a> Dive<'a> {
            fn call(&mut self) {
                self.4 += 1;
                if self.3.len() < 6 && self.4.is_power_of_two() {
                    self.3.push(self.1.encode_px(self.2).ok());
                }
            }
        }
        type Late<'a> = (&'a Case, &'a [u8], &'a std::sync::Mutex<Vec<Option<Vec<u8>>>>);
        struct OnDrop<'a>(Late<'a>);
        impl Drop for OnDrop<'_> {
            fn drop(&mut self) {
                let v = guard(|| self.0 .0.encode_px(self.0 .1));
                self.0 .2.lock().unwrap().push(v.ok().and_then(|v| v.ok()));
            }
        }
        // what a thread-local destructor needs, owned
        struct Last(Option<(Case, Vec<u8>, std::sync::mpsc::Sender<Option<Vec<u8>>>)>);
        impl Drop for Last {
            fn drop(&mut self) {
                if let Some((c, px, tx)) = self.0.take() {
                    let v = guard(|| c.encode_px(&px));
                    let _ = tx.send(v.ok().and_then(|v| v.ok()));
                }
            }
        }
        thread_local! { static EARLY: RefCell<Last> = const { RefCell::new(Last(None)) }; }
        let mut c = random_case(r, 900);
        c.icc = None;
        let px = c.pixels();
        let alone = enc(&c, &px)?;
        match i % 3 {
            0 => {
                let d = neighbour(&c, r);
                l.what(&format!("{} during a write call of {}", c, d));
                let pd = d.pixels();
                let fd = enc(&d, &pd)?;
                let mut sink = Dive(vec![], &c, &px, vec![], 0);
                guard(|| d.encode_to(&mut sink, &pd)).map_err(|p| format!("panic: {}", p))?.map_err(|e| format!("{:?}", e))?;
                if sink.0 != fd || sink.3.iter().any(|v| v.as_ref() != Some(&alone)) {
                    return Err("an encode inside another one's destination changes a file".into());
                }
                l.count("encodes_inside_a_destination", sink.3.len() as u64);
            }
            1 => {
                l.what(&format!("{} during unwinding", c));
                let out = Default::default();
                let _ = guard(|| {
                    let _d = OnDrop((&c, &px, &out));
                    panic!("unwinding on purpose");
                });
                if out.into_inner().unwrap() != [Some(alone)] {
                    return Err("an encode in a destructor during unwinding gives another result".into());
                }
                l.count("encodes_during_unwinding", 1);
            }
            _ => {
                l.what(&format!("{} while a thread ends", c));
                let (tx, rx) = std::sync::mpsc::channel();
                let (c2, px2) = (c.clone(), px.clone());
                let before = r.chance(1, 2);
                std::thread::spawn(move || {
                    // registered first or last: destroyed after or before whatever the library keeps per thread
                    if before {
                        EARLY.with(|e| e.borrow_mut().0 = Some((c2.clone(), px2.clone(), tx)));
                        let _ = guard(|| c2.encode_px(&px2));
                    } else {
                        let _ = guard(|| c2.encode_px(&px2));
                        EARLY.with(|e| e.borrow_mut().0 = Some((c2, px2, tx)));
                    }
                })
                .join()
                .map_err(|_| "a thread panicked while it ended".to_string())?;
                if rx.recv() != Ok(Some(alone)) {
                    return Err("an encode in a thread-local destructor gives another result".into());
                }
                l.count("encodes_while_a_thread_ends", 1);
            }
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("heap_contents", ctx.n(3000, 100_000), |r, _, l| {
        let c = random_case(r, 3000);
        l.what(&c.to_string());
        let px = c.pixels();
        let plain = enc(&c, &px)?;
        for b in [0u16, 0xFF, 0xA5, r.u8() as u16] {
            let before = crate::alloc::count();
            crate::alloc::poison(b);
            let v = enc(&c, &px);
            crate::alloc::poison(256);
            l.count("poisoned_allocations", crate::alloc::count() - before);
            if v? != plain {
                return Err(format!("the file depends on heap contents (fresh memory filled with {:#x})", b));
            }
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // bytes around the image, and where the image lies in memory
    ctx.run("surroundings", ctx.n(3000, 100_000), |r, _, l| {
        let mut c = random_case(r, 3000);
        c.extra = 0;
        c.buf = false;
        l.what(&c.to_string());
        let px = c.pixels();
        let plain = enc(&c, &px)?;
        for _ in 0..3 {
            let (a, b) = (r.below(70) as usize, r.below(70) as usize);
            let mut big = vec![0u8; a + px.len() + b];
            r.fill(&mut big);
            big[a..a + px.len()].copy_from_slice(&px);
            // bytes before, after (outside the slice) and after (inside the slice)
            let end = if r.chance(1, 2) { a + px.len() } else { big.len() };
            if enc(&c, &big[a..end])? != plain {
                return Err(format!("the file depends on bytes around the image (offset {}, {} surplus)", a, end - a - px.len()));
            }
            l.cover("alignments", a as u64 % 64);
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
}

// ---------------------------------------------------------------- C19

pub struct Spy<'a> {
    pub case: &'a Case,
    pub planes: &'a [Vec<u8>],
    pub style: u8,
    pub rows: RefCell<Vec<u32>>,
    pub bad: Cell<Option<u16>>,
    pub calls: Cell<u64>,
}

impl<'a> Spy<'a> {
    pub fn new(case: &'a Case, planes: &'a [Vec<u8>], style: u8) -> Spy<'a> {
        Spy { case, planes, style, rows: RefCell::new(vec![0; case.h as usize]), bad: Cell::new(None), calls: Cell::new(0) }
    }
}

impl<'a> ImageBuffer for &Spy<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.case.jpeg_color()
    }
    fn width(&self) -> u16 {
        self.case.w
    }
    fn height(&self) -> u16 {
        self.case.h
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        self.calls.set(self.calls.get() + 1);
        if y >= self.case.h {
            self.bad.set(Some(y));
            // stay in bounds so that the run can go on
        } else {
            self.rows.borrow_mut()[y as usize] += 1;
        }
        let w = self.case.w as usize;
        let yy = (y as usize).min(self.case.h.max(1) as usize - 1);
        let style = if self.style == 9 { (self.calls.get() % 7) as u8 } else { self.style };
        let n = self.planes.len();
        match style {
            // pixel by pixel, all components
            0 => {
                for x in 0..w {
                    for k in 0..n {
                        b[k].push(self.planes[k][yy * w + x]);
                    }
                }
            }
            1 => {
                for k in 0..n {
                    b[k].extend_from_slice(&self.planes[k][yy * w..yy * w + w]);
                }
            }
            // last component first
            2 => {
                for k in (0..n).rev() {
                    b[k].extend(self.planes[k][yy * w..yy * w + w].iter());
                }
            }
            // resize, then write through the slice
            3 => {
                for k in 0..n {
                    let s = b[k].len();
                    b[k].resize(s + w, 0xEE);
                    b[k][s..].copy_from_slice(&self.planes[k][yy * w..yy * w + w]);
                }
            }
            // move into a fresh, exactly sized allocation
            4 => {
                for k in 0..n {
                    let mut v = Vec::with_capacity(b[k].len() + w);
                    v.extend_from_slice(&b[k]);
                    v.extend_from_slice(&self.planes[k][yy * w..yy * w + w]);
                    b[k] = v;
                }
            }
            // over-append and truncate
            5 => {
                for k in 0..n {
                    let s = b[k].len();
                    b[k].extend_from_slice(&self.planes[k][yy * w..yy * w + w]);
                    b[k].extend_from_slice(&[1, 2, 3, 4, 5]);
                    b[k].truncate(s + w);
                }
            }
            _ => {
                for k in 0..n {
                    b[k].reserve(w + 100);
                    b[k].append(&mut self.planes[k][yy * w..yy * w + w].to_vec());
                    b[k].shrink_to_fit();
                }
            }
        }
    }
}

fn c19_one(l: &mut Local, c: &Case, style: u8) -> Res {
    l.what(&format!("{} style {}", c, style));
    let mut c = c.clone();
    c.buf = false;
    let px = c.pixels();
    let builtin = enc(&c, &px)?;
    let pl = planes(&c, &px);
    let spy = Spy::new(&c, &pl, style);
    let mut o = vec![];
    guard(|| {
        let mut e = Encoder::new(&mut o as Dst, c.q);
        c.configure(&mut e)?;
        e.encode_image(By(&&spy))
    })
    .map_err(|p| format!("panic: {}", p))?
    .map_err(|e| format!("{:?}", e))?;
    if let Some(y) = spy.bad.get() {
        return Err(format!("row {} was requested from an image of height {}", y, c.h));
    }
    if let Some(y) = spy.rows.borrow().iter().position(|&n| n == 0) {
        return Err(format!("row {} was never requested", y));
    }
    if o != builtin {
        return Err("the custom image's file differs from the built-in format's file with the same samples".into());
    }
    l.count("row_requests", spy.calls.get());
    l.max("most_requests_for_one_row", *spy.rows.borrow().iter().max().unwrap() as f64);
    l.cover("style_x_colour_x_factor_x_mode", style as u64 * 10000 + c.ct as u64 * 1000 + c.factors().0 as u64 * 100 + c.factors().1 as u64 * 10 + c.prog.is_some() as u64 * 2 + c.opt as u64);
    l.eval(&format!("{} style {}", c, style), true);
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    ctx.run("matrix", ctx.n(9 * 8 * 4 * 4, 9 * 8 * 4 * 100), |r, i, l| {
        let mut c = random_case(r, 2500);
        c.ct = (i % 9) as u8;
        c.sf = Some(((i / 9) % 8) as u8);
        let m = (i / 72) % 4;
        c.prog = if m & 1 == 1 { Some(r.range(2, 64) as u8) } else { None };
        c.opt = m & 2 == 2;
        // some styles copy the whole plane at every row
        let style = if c.h > 4000 { *r.pick(&[0u8, 1, 2, 3, 5]) } else { *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 9]) };
        c19_one(l, &c, style)
    });
    ctx.run("random", ctx.n(5000, 150_000), |r, _, l| {
        let c = random_case(r, 5000);
        // some styles copy the whole plane at every row
        let style = if c.h > 4000 { *r.pick(&[0u8, 1, 2, 3, 5]) } else { *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 9]) };
        c19_one(l, &c, style)
    });
    ctx.run("tall", ctx.n(8, 60), |r, i, l| {
        let mut c = random_case(r, 64);
        c.icc = None;
        c.app.clear();
        (c.w, c.h) = if i % 2 == 0 { (r.range(1, 9) as u16, 65535 - r.below(20) as u16) } else { (65535 - r.below(20) as u16, r.range(1, 9) as u16) };
        c19_one(l, &c, 1)
    });
    ctx.run("big", ctx.n(10, 100), |r, i, l| {
        let c = big_case(r, i);
        // not the styles that copy the whole plane at every row
        c19_one(l, &c, *r.pick(&[0u8, 1, 2, 3, 5]))
    });
    ctx.run("empty", 4 * 3 * 40, |r, i, l| {
        // zero-sized: nothing is requested, nothing is written, the error is the documented one
        let t = [0u8, 5, 6, 8][(i % 4) as usize];
        let mut c = random_case(r, 64);
        c.ct = t;
        let (w, h) = match (i / 4) % 3 {
            0 => (0, r.range(1, 65535) as u16),
            1 => (r.range(1, 65535) as u16, 0),
            _ => (0, 0),
        };
        c.w = w;
        c.h = h;
        l.what(&format!("zero-sized {}", c));
        let pl: Vec<Vec<u8>> = vec![vec![]; c.ncomp()];
        let spy = Spy::new(&c, &pl, 1);
        let mut o = vec![];
        let res = guard(|| {
            let mut e = Encoder::new(&mut o as Dst, c.q);
            c.configure(&mut e)?;
            e.encode_image(By(&&spy))
        })
        .map_err(|p| format!("panic: {}", p))?;
        match res {
            Err(EncodingError::ZeroImageDimensions { width, height }) if (width, height) == (w, h) => {}
            other => return Err(format!("result {:?}", other)),
        }
        if spy.calls.get() > 0 {
            return Err("rows of an empty image were requested".into());
        }
        if !o.is_empty() {
            return Err("bytes were written for an empty image".into());
        }
        l.eval(&format!("{}x{} {}", w, h, t), true);
        Ok(())
    });
}

// ---------------------------------------------------------------- C22

struct Null(u64);
#[cfg(feature = "std")]
impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[cfg(not(feature = "std"))]
impl JfifWrite for Null {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        self.0 += b.len() as u64;
        Ok(())
    }
}

/// cheap source for very tall or wide pictures
struct Synth {
    t: JpegColorType,
    n: usize,
    w: u16,
    h: u16,
    seed: u64,
    noise: bool,
}
impl ImageBuffer for Synth {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.t
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let mut r = Rng::derive(self.seed, "row", y as u64);
        for v in b.iter_mut().take(self.n) {
            let mut s = r.next();
            for x in 0..self.w as u64 {
                if self.noise {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    v.push((s >> 56) as u8);
                } else {
                    v.push((s.wrapping_add(x) / 16) as u8);
                }
            }
        }
    }
}

fn is_baseline(c: &Case) -> bool {
    let f = c.factors();
    // non-interleaved coding is not the default mode: it needs every coefficient
    c.prog.is_none() && !c.opt && f.0 <= 2 && f.1 <= 2
}

/// peak bytes of the library for one encode into a null destination, and bytes left over
#[cfg(feature = "galloc")]
fn measure(f: impl FnOnce()) -> (i64, i64) {
    let before = crate::alloc::live();
    crate::alloc::reset_peak();
    f();
    (crate::alloc::peak() - before, crate::alloc::live() - before)
}

const FIXED: i64 = 64 * 1024;

#[cfg(feature = "galloc")]
fn bound(c: &Case) -> i64 {
    let f = c.factors();
    let (pw, ph) = ((c.w as usize).div_ceil(8 * f.0) * 8 * f.0, (c.h as usize).div_ceil(8 * f.1) * 8 * f.1);
    let n = c.ncomp();
    if is_baseline(c) {
        FIXED + (192 * (c.w as usize + 32) * n) as i64
    } else {
        FIXED + (8 * pw * ph * n) as i64
    }
}

#[cfg(feature = "galloc")]
fn c22_one(l: &mut Local, c: &Case, noise: bool) -> Result<i64, String> {
    l.what(&c.to_string());
    let mut bytes = 0;
    let (mut peak, mut left) = (0, 0);
    // something that is set up once per process or thread may stay: only what stays every time is a leak
    for _ in 0..2 {
        let im = Synth { t: c.jpeg_color(), n: c.ncomp(), w: c.w, h: c.h, seed: c.seed, noise };
        let mut res = None;
        (peak, left) = measure(|| {
            res = Some(guard(|| {
                let mut s = Null(0);
                let mut e = Encoder::new(&mut s as Dst, c.q);
                c.configure(&mut e)?;
                e.encode_image(By(&im))?;
                bytes = s.0;
                Ok::<(), EncodingError>(())
            }));
        });
        res.unwrap().map_err(|p| format!("panic: {}", p))?.map_err(|e| format!("{:?}", e))?;
        if left == 0 {
            break;
        }
    }
    let b = bound(c);
    if peak > b {
        return Err(format!("{} bytes of working memory at peak, the bound for {}x{} with {} components is {}", peak, c.w, c.h, c.ncomp(), b));
    }
    if left != 0 {
        return Err(format!("{} bytes still allocated after the encode", left));
    }
    if is_baseline(c) {
        l.max("baseline_bytes_per_pixel_of_width_and_component", (peak - 4096).max(0) as f64 / (c.w as f64 * c.ncomp() as f64));
    } else {
        l.max("other_bytes_per_pixel_and_component", (peak - FIXED).max(0) as f64 / (c.npix() * c.ncomp()) as f64);
    }
    l.max("largest_peak_over_bound", peak as f64 / b as f64);
    l.count("output_bytes", bytes);
    l.count("encodes_measured", 1);
    Ok(peak)
}

#[cfg(not(feature = "galloc"))]
pub fn c22(_: &Ctx) {
    let _ = is_baseline;
    let _ = FIXED;
    panic!("needs the monitoring allocator");
}

#[cfg(feature = "galloc")]
pub fn c22(ctx: &Ctx) {
    let bare = |r: &mut Rng| {
        let mut c = random_case(r, 64);
        c.app.clear();
        c.icc = None;
        c.buf = true;
        c
    };
    // the same width, growing height: baseline memory does not move
    ctx.run("heights", ctx.n(9 * 4 * 6, 9 * 4 * 80), |r, i, l| {
        let mut c = bare(r);
        c.ct = (i % 9) as u8;
        c.sf = Some([0u8, 1, 2, 3][(i / 9) as usize % 4]);
        c.prog = None;
        c.opt = false;
        c.w = r.range(1, 900) as u16;
        let mut seen = vec![];
        for h in [64u16, 65, 200, 1000, r.range(1500, 4000) as u16] {
            c.h = h;
            seen.push(c22_one(l, &c, h < 300)?);
        }
        let (a, b) = (*seen.iter().min().unwrap(), *seen.iter().max().unwrap());
        // a staging buffer of a fixed size may fill up; anything that keeps a byte per row or per pixel is larger
        if b - a > FIXED {
            return Err(format!("working memory grows with the height: {:?} bytes", seen));
        }
        l.cover("baseline_layouts", i % 36);
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // growth that never stops: every doubling of an already tall noisy picture (its output fills any fixed buffer many
    // times over) needs more memory than the one before
    ctx.run("doublings", ctx.n(18, 36 * 3), |r, i, l| {
        let mut c = bare(r);
        c.ct = (i % 9) as u8;
        c.sf = Some([0u8, 1, 2, 3][(i / 9) as usize % 4]);
        c.prog = None;
        c.opt = false;
        c.q = r.range(80, 100) as u8;
        c.qt = [Qt::Preset(0); 2];
        c.w = r.range(64, 80) as u16;
        let mut seen = vec![];
        for h in [8192u16, 16384, 32768, 65535] {
            c.h = h;
            seen.push(c22_one(l, &c, true)?);
        }
        if seen.windows(2).all(|s| s[1] > s[0] + 128) || seen[3] - seen[0] > FIXED {
            return Err(format!("working memory keeps growing with the height: {:?} bytes for 8192, 16384, 32768 and 65535 rows", seen));
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("tallest", ctx.n(4, 24), |r, i, l| {
        let mut c = bare(r);
        c.prog = None;
        c.opt = false;
        c.ct = [0u8, 5, 8, 6][i as usize % 4];
        c.sf = Some([3u8, 0, 1, 2][i as usize % 4]);
        (c.w, c.h) = if i % 2 == 0 { (40, 65535) } else { (65535, 40) };
        c22_one(l, &c, false)?;
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("other_modes", ctx.n(9 * 8 * 4 * 2, 9 * 8 * 4 * 40), |r, i, l| {
        let mut c = bare(r);
        c.ct = (i % 9) as u8;
        c.sf = Some((i / 9 % 8) as u8);
        let m = i / 72 % 4;
        c.prog = if m & 1 == 1 { Some(r.range(2, 64) as u8) } else { None };
        c.opt = m & 2 == 2;
        for (w, h) in [(r.range(1, 400), r.range(1, 400)), (r.range(1, 20), r.range(500, 3000)), (r.range(500, 3000), r.range(1, 20))] {
            c.w = w as u16;
            c.h = h as u16;
            c22_one(l, &c, true)?;
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("big", ctx.n(16, 200), |r, i, l| {
        let mut c = big_case(r, i);
        c.buf = true;
        c22_one(l, &c, i / 5 % 2 == 0)?;
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("random", ctx.n(2000, 60_000), |r, _, l| {
        let mut c = bare(r);
        (c.w, c.h) = random_size(r, 60_000);
        c22_one(l, &c, r.chance(1, 2))?;
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // the byte slice formats keep the same bounds
    ctx.run("slices", ctx.n(1500, 40_000), |r, _, l| {
        let mut c = bare(r);
        (c.w, c.h) = random_size(r, 60_000);
        c.buf = false;
        let px = c.pixels();
        l.what(&c.to_string());
        let (mut peak, mut left) = (0, 0);
        for _ in 0..2 {
            let mut res = None;
            (peak, left) = measure(|| {
                res = Some(guard(|| {
                    let mut o = Null(0);
                    let mut e = Encoder::new(&mut o as Dst, c.q);
                    c.configure(&mut e)?;
                    e.encode(&px, c.w, c.h, c.color())
                }));
            });
            res.unwrap().map_err(|p| format!("panic: {}", p))?.map_err(|e| format!("{:?}", e))?;
            if left == 0 {
                break;
            }
        }
        if peak > bound(&c) || left != 0 {
            return Err(format!("peak {} (bound {}), {} bytes left", peak, bound(&c), left));
        }
        l.max("largest_peak_over_bound", peak as f64 / bound(&c) as f64);
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // every way out gives everything back: error and panic at random points of the destination, panicking sources,
    // refused requests, encoders that are dropped unused
    ctx.run("ways_out", ctx.n(5000, 150_000), |r, i, l| {
        let mut c = random_case(r, 3000);
        c.buf = r.chance(1, 2);
        l.what(&format!("{} way out {}", c, i % 8));
        let px = c.pixels();
        let len = enc(&c, &px)?.len();
        let at = r.below(len as u64 + 1) as usize;
        let kind = (i % 8) as u8;
        // the sink's own log is released inside the measured region too
        let mut outcome = 0u8;
        let mut left = 0;
        for _ in 0..2 {
            (_, left) = measure(|| {
            let fault = match kind {
                0 => Fault::At { at, kind: (at % 36) as u8 },
                1 => Fault::Panic { at },
                2 => Fault::Zero { at },
                _ => Fault::None,
            };
            let res = match kind {
                0..=2 => guard(|| c.encode_to(Sink::new(fault, 0, 0, 1).0, &px)),
                3 => guard(|| {
                    let im = PanicImage(PlaneImage { case: &c, planes: planes(&c, &px), w: c.w, h: c.h }, (at % c.h as usize) as u16);
                    let mut o = Null(0);
                    let mut e = Encoder::new(&mut o as Dst, c.q);
                    c.configure(&mut e)?;
                    e.encode_image(By(&im))
                }),
                4 => guard(|| {
                    let mut o = Null(0);
                    let mut e = Encoder::new(&mut o as Dst, c.q);
                    c.configure(&mut e)?;
                    e.encode(&px[..c.npix() * c.bpp() - 1], c.w, c.h, c.color())
                }),
                7 => {
                    let mut o = FlushSink::new((at % 37) as u8, 1, 1);
                    guard(|| c.encode_to(&mut o, &px))
                }
                5 => guard(|| {
                    let mut o = Null(0);
                    let mut e = Encoder::new(&mut o as Dst, c.q);
                    c.configure(&mut e)?;
                    drop(e);
                    Ok(())
                }),
                _ => guard(|| {
                    let mut o = Null(0);
                    let mut e = Encoder::new(&mut o as Dst, c.q);
                    c.configure(&mut e)?;
                    let _ = e.add_icc_profile(&vec![0; 17_000_000]);
                    let _ = e.add_app_segment(3, &vec![0; 70_000]);
                    e.encode(&px, 0, c.h, c.color())
                }),
            };
            outcome = match res {
                Err(_) => 2,
                Ok(Err(_)) => 1,
                Ok(Ok(())) => 0,
            };
            });
            if left == 0 {
                break;
            }
        }
        if left != 0 {
            return Err(format!("{} bytes still allocated afterwards (outcome {})", left, ["success", "error", "panic"][outcome as usize]));
        }
        l.count(["ended_in_success", "ended_in_error", "ended_in_panic"][outcome as usize], 1);
        l.eval(&format!("{} at {} {}", c, at, kind), true);
        Ok(())
    });
}
