//! C12: workload for the memory and undefined-behaviour detectors (ASan, MSan, TSan, Miri, valgrind, canaries).
//! The verdict comes from the detector; here only "did not return bytes it should not have" is checked.
use crate::case::*;
use crate::ctx::*;
use crate::rng::Rng;
use crate::sink::*;
use jpeg_encoder::*;
use std::cell::Cell;

/// A source that breaks every rule a safe implementation can break.
pub struct Hostile {
    pub t: JpegColorType,
    pub w: u16,
    pub h: u16,
    pub style: u8,
    pub seed: u64,
    pub n: Cell<u64>,
    pub dims: Cell<u64>,
}

pub const STYLES: u8 = 22;

impl ImageBuffer for Hostile {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        let k = self.n.get() + self.dims.get();
        if self.style == 13 {
            return [JpegColorType::Luma, JpegColorType::Ycbcr, JpegColorType::Cmyk, JpegColorType::Ycck][(k % 4) as usize];
        }
        self.t
    }
    fn width(&self) -> u16 {
        let k = self.dims.get();
        self.dims.set(k + 1);
        match self.style {
            // grows, shrinks, becomes zero or maximal after the first questions
            10 => self.w.wrapping_add(k as u16),
            11 if k >= 2 + self.seed % 8 => 0,
            12 if k >= 2 + self.seed % 8 => self.w.wrapping_mul(3),
            14 if k % 2 == 1 => self.w.saturating_sub(1),
            21 => Rng::derive(self.seed, "w", k).range(0, 70) as u16,
            _ => self.w,
        }
    }
    fn height(&self) -> u16 {
        let k = self.dims.get();
        self.dims.set(k + 1);
        match self.style {
            10 => self.h.wrapping_add(k as u16),
            11 if k >= 3 + self.seed % 8 => 0,
            15 if k >= 2 + self.seed % 8 => self.h.wrapping_mul(3),
            16 if k % 2 == 1 => self.h.saturating_sub(1),
            21 => Rng::derive(self.seed, "h", k).range(0, 70) as u16,
            _ => self.h,
        }
    }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        let k = self.n.get();
        self.n.set(k + 1);
        let mut r = Rng::derive(self.seed, "row", k);
        let w = self.w as usize;
        let ncomp = match self.t {
            JpegColorType::Luma => 1,
            JpegColorType::Ycbcr => 3,
            _ => 4,
        };
        match self.style {
            // nothing / one short / one long / random lengths / different per component
            0 => return,
            1 => {
                for v in b.iter_mut() {
                    v.resize(v.len() + w.saturating_sub(1), y as u8);
                }
            }
            2 => {
                for v in b.iter_mut() {
                    v.resize(v.len() + w + 1, y as u8);
                }
            }
            3 => {
                for v in b.iter_mut() {
                    v.resize(v.len() + r.below(2 * w as u64 + 2) as usize, r.u8());
                }
            }
            4 => {
                for (i, v) in b.iter_mut().enumerate() {
                    v.resize(v.len() + w * i / 2, r.u8());
                }
            }
            // clears, takes, shrinks, swaps what is there
            5 => {
                for v in b.iter_mut() {
                    v.clear();
                    v.resize(w, r.u8());
                }
            }
            6 => {
                for v in b.iter_mut() {
                    drop(std::mem::take(v));
                }
            }
            7 => {
                b.swap(0, 3);
                for v in b.iter_mut() {
                    v.resize(v.len() + w, r.u8());
                    v.shrink_to_fit();
                }
            }
            8 => {
                if k == self.seed % 16 {
                    panic!("injected source panic");
                }
                for v in b.iter_mut().take(ncomp) {
                    v.resize(v.len() + w, r.u8());
                }
            }
            9 => {
                // the components that should not exist
                for v in b.iter_mut() {
                    v.resize(v.len() + w, r.u8());
                }
            }
            17 => {
                // good until the last row
                if y as usize + 1 >= self.h as usize {
                    for v in b.iter_mut() {
                        v.truncate(r.below(v.len() as u64 + 1) as usize);
                    }
                } else {
                    for v in b.iter_mut().take(ncomp) {
                        v.resize(v.len() + w, r.u8());
                    }
                }
            }
            18 => {
                // only one component
                let i = (self.seed % 4) as usize;
                b[i].resize(b[i].len() + w, r.u8());
            }
            19 => {
                // much more than asked for
                for v in b.iter_mut() {
                    v.resize(v.len() + 9 * w + 100, r.u8());
                }
            }
            20 => {
                for v in b.iter_mut() {
                    *v = Vec::with_capacity(v.len());
                }
            }
            _ => {
                for v in b.iter_mut().take(ncomp) {
                    let n = v.len();
                    v.resize(n + w, 0);
                    r.fill(&mut v[n..]);
                }
            }
        }
    }
}

fn hostile_one(r: &mut Rng, l: &mut Local, style: u8, max: i64) -> Res {
    let mut c = random_case(r, 64);
    if cfg!(miri) && !l.ctx.thorough {
        c.opt = false;
        c.prog = c.prog.map(|p| p.min(9));
        c.icc = None;
    }
    let t = *r.pick(&[JpegColorType::Luma, JpegColorType::Ycbcr, JpegColorType::Cmyk, JpegColorType::Ycck]);
    let im = Hostile { t, w: r.range(1, max) as u16, h: r.range(1, max) as u16, style, seed: r.next() >> 40, n: Cell::new(0), dims: Cell::new(0) };
    l.what(&format!("hostile source style {} {:?} {}x{} with {}", style, t, im.w, im.h, c));
    let mut out = vec![];
    let res = guard(|| {
        let mut e = Encoder::new(&mut out as Dst, c.q);
        c.configure(&mut e)?;
        e.encode_image(By(&im))
    });
    l.count(
        match res {
            Ok(Ok(())) => "hostile_source_success",
            Ok(Err(_)) => "hostile_source_error",
            Err(_) => "hostile_source_panic",
        },
        1,
    );
    // reading what was produced makes uninitialised bytes visible to the detectors
    let mut x = 0u8;
    for &b in &out {
        x ^= b;
    }
    if std::hint::black_box(x) == 1 {
        l.count("odd", 1);
    }
    l.eval(&format!("hostile {} {:?} {}", style, t, c), true);
    Ok(())
}

/// image data in an allocation of exactly its size, at every small size
fn exact_one(r: &mut Rng, l: &mut Local, ct: u8, w: u16, h: u16) -> Res {
    let mut c = random_case(r, 64);
    c.ct = ct;
    c.w = w;
    c.h = h;
    c.buf = false;
    c.extra = 0;
    l.what(&c.to_string());
    let px = c.pixels().into_boxed_slice();
    let v = c.encode_px(&px).map_err(|e| format!("{:?}", e))?;
    let mut x = 0u8;
    for &b in &v {
        x ^= b;
    }
    std::hint::black_box(x);
    // one byte short: must be refused before any access
    if c.encode_px(&px[..px.len() - 1]).is_ok() {
        return Err("a buffer that is one byte short was accepted".into());
    }
    l.count("exact_size_slices", 1);
    l.cover("width_x_layout", (w as u64) << 8 | ct as u64);
    l.eval(&c.to_string(), true);
    Ok(())
}

fn smash(_l: &mut Local) -> Res {
    #[cfg(feature = "fence")]
    _l.max("blocks_beside_an_inaccessible_page", crate::fence::blocks() as f64);
    #[cfg(feature = "galloc")]
    {
        let n = crate::alloc::smashed();
        _l.max("blocks_with_canaries_checked", crate::alloc::checked() as f64);
        if n > 0 {
            return Err(format!("{} heap blocks were written outside their bounds", n));
        }
    }
    Ok(())
}

pub fn mem(ctx: &Ctx) {
    ctx.run("exact", ctx.n(9 * 72, 9 * 72 * 40), |r, i, l| {
        let ct = (i % 9) as u8;
        let w = (1 + (i / 9) % 72) as u16;
        for h in [1u16, 2, 8, 1 + r.below(40) as u16] {
            exact_one(r, l, ct, w, h)?;
        }
        smash(l)
    });
    ctx.run("exact_wide", ctx.n(9 * 12, 9 * 300), |r, i, l| {
        let w = *r.pick(&[255u16, 256, 257, 1000, 1023, 1025, 4095, 65535, 65528, 65534]);
        let (a, b) = if i % 2 == 0 { (w, 1) } else { (1, w) };
        exact_one(r, l, (i / 2 % 9) as u8, a, b)?;
        smash(l)
    });
    ctx.run("hostile", ctx.n(STYLES as u64 * 200, STYLES as u64 * 8000), |r, i, l| {
        hostile_one(r, l, (i % STYLES as u64) as u8, 70)?;
        smash(l)
    });
    ctx.run("random", ctx.n(2500, 100_000), |r, _, l| {
        let mut c = random_case(r, 6000);
        c.extra = 0;
        l.what(&c.to_string());
        let px = c.pixels().into_boxed_slice();
        let v = c.encode_px(&px).map_err(|e| format!("{:?}", e))?;
        std::hint::black_box(v.iter().fold(0u8, |a, b| a ^ b));
        l.eval(&c.to_string(), true);
        smash(l)
    });
    // extreme content: the arithmetic paths closest to overflow
    ctx.run("extreme", ctx.n(600, 20_000), |r, i, l| {
        let mut c = random_case(r, 3000);
        c.img = *r.pick(&[7u8, 10, 1, 9]);
        c.q = [100u8, 1, 255, 0][i as usize % 4];
        c.qt = match i % 3 {
            0 => [Qt::Custom(0, 0); 2],
            1 => [Qt::Custom(3, i), Qt::Custom(4, i)],
            _ => [Qt::Preset(0); 2],
        };
        l.what(&c.to_string());
        let px = c.pixels().into_boxed_slice();
        let v = c.encode_px(&px).map_err(|e| format!("{:?}", e))?;
        std::hint::black_box(v.iter().fold(0u8, |a, b| a ^ b));
        l.eval(&c.to_string(), true);
        smash(l)
    });
    ctx.run("huffman", ctx.n(14, 26), |r, i, l| {
        let n = (12 + i as usize).min(26);
        let (c, px) = crate::c_tables::fib_picture(n, r);
        l.what(&format!("fibonacci picture over {} symbols", n));
        c.encode_px(&px).map_err(|e| format!("{:?}", e))?;
        l.eval(&format!("fibonacci {}", n), true);
        smash(l)
    });
    ctx.run("failing_destination", ctx.n(3000, 100_000), |r, i, l| {
        let c = random_case(r, 1500);
        l.what(&c.to_string());
        let px = c.pixels();
        let at = r.below(1200) as usize;
        let f = match i % 4 {
            0 => Fault::At { at, kind: r.below(12) as u8 },
            1 => Fault::Panic { at },
            2 => Fault::Zero { at },
            _ => Fault::Once { at, kind: 3 },
        };
        let (s, log) = Sink::new(f, r.below(20) as usize, *r.pick(&[0u64, 0, 2, 3, 5]), 5);
        let res = guard(|| c.encode_to(s, &px));
        std::hint::black_box(log.lock().unwrap_or_else(|e| e.into_inner()).data.iter().fold(0u8, |a, b| a ^ b));
        l.count(if res.is_err() { "destination_panics" } else { "destination_returns" }, 1);
        l.eval(&format!("{} {}", c, at), true);
        smash(l)
    });
    ctx.run_t("threads", ctx.n(4, 60), 1, |r, i, l| {
        let list: Vec<Case> = (0..40).map(|_| random_case(r, 2500)).collect();
        l.what(&format!("threads batch {}", i));
        std::thread::scope(|s| {
            for t in 0..8 {
                let list = &list;
                s.spawn(move || {
                    for k in 0..list.len() {
                        let _ = guard(|| list[(k * 7 + t) % list.len()].encode());
                    }
                });
            }
        });
        l.count("concurrent_encodes", 320);
        l.eval(&format!("8 threads, batch {}", i), true);
        smash(l)
    });
    api_sweep(ctx);
}

fn api_sweep(ctx: &Ctx) {
    ctx.run("api", ctx.n(20, 200), |r, i, l| {
        l.what("segments, profiles, getters, conversions");
        let mut out = vec![];
        let mut e = Encoder::new(&mut out as Dst, r.u8());
        let big = vec![7u8; 65535];
        for n in [0usize, 1, 65533, 65534, 65535] {
            for nr in [0u8, 1, 15, 16, 255] {
                let _ = e.add_app_segment(nr, &big[..n]);
            }
        }
        let _ = e.add_icc_profile(&vec![1; 65519 * (i as usize % 4) + 5]);
        let _ = (e.density(), e.sampling_factor(), e.progressive_scans(), e.restart_interval(), e.optimized_huffman_tables());
        let _ = format!("{:?}", e.quantization_tables());
        let _ = SamplingFactor::from_factors(r.u8(), r.u8());
        let _ = guard(|| e.set_progressive_scans(r.u8()));
        let res = guard(|| e.encode(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 2, 2, ColorType::Rgb));
        l.count("api_sweeps", 1);
        std::hint::black_box(res.is_ok());
        l.eval(&format!("api sweep {}", i), true);
        smash(l)
    });
}

/// A workload small enough for Miri and valgrind: every path once or twice, tiny pictures.
pub fn mini(ctx: &Ctx) {
    let n = |q, t| ctx.n(q, t);
    ctx.run("exact", n(9 * 6, 9 * 40), |r, i, l| {
        let ct = (i % 9) as u8;
        let w = if ctx.thorough { 1 + (i / 9) as u16 } else { [1u16, 7, 9, 16, 33, 41][(i / 9) as usize % 6] };
        let h = 1 + r.below(9) as u16;
        mini_case(r, l, ct, w, h)
    });
    ctx.run("modes", n(4 * 8, 4 * 8 * 9), |r, i, l| {
        let mut c = random_case(r, 200);
        c.ct = if ctx.thorough { (i / 32) as u8 } else { *r.pick(&[1u8, 0, 6, 8]) };
        c.sf = Some((i % 8) as u8);
        let m = i / 8 % 4;
        c.prog = if m & 1 == 1 { Some(*r.pick(&[2u8, 3, 4, 40, 64])) } else { None };
        c.opt = m & 2 == 2;
        if cfg!(miri) && !ctx.thorough {
            // optimising tables takes half a minute in an interpreter
            c.opt = i % 9 == 4;
            if c.opt && i != 4 {
                c.ct = 0;
            }
        }
        (c.w, c.h) = (r.range(1, 20) as u16, r.range(1, 20) as u16);
        c.app.truncate(1);
        c.icc = None;
        l.what(&c.to_string());
        let px = c.pixels().into_boxed_slice();
        let v = c.encode_px(&px).map_err(|e| format!("{:?}", e))?;
        std::hint::black_box(v.iter().fold(0u8, |a, b| a ^ b));
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("hostile", n(STYLES as u64, STYLES as u64 * 12), |r, i, l| hostile_one(r, l, (i % STYLES as u64) as u8, 18));
    // two threads over the same requests: what they share without synchronisation is reported whatever the schedule
    ctx.run_t("race", n(5, 40), 1, |r, i, l| {
        let list: Vec<Case> = (0..4)
            .map(|k| {
                let mut c = random_case(r, 64);
                c.ct = ((i * 4 + k) % 9) as u8;
                (c.w, c.h) = (r.range(1, 17) as u16, r.range(1, 9) as u16);
                c.prog = if k == 2 { Some(r.range(2, 5) as u8) } else { None };
                c.opt = l.ctx.thorough && k == 3;
                // a flat picture, then others
                if k == 0 {
                    c.img = 3;
                }
                c.app.clear();
                c.icc = None;
                c
            })
            .collect();
        l.what(&format!("two threads, beginning with {}", list[0]));
        let gate = std::sync::Barrier::new(2);
        std::thread::scope(|s| {
            for t in 0..2 {
                let (list, gate) = (&list, &gate);
                s.spawn(move || {
                    gate.wait();
                    for k in 0..list.len() {
                        let v = guard(|| list[(k + 2 * t) % list.len()].encode());
                        std::hint::black_box(v.is_ok());
                    }
                });
            }
        });
        l.count("encodes_on_two_threads", 8);
        l.eval(&format!("two threads {}", i), true);
        Ok(())
    });
    ctx.run("faults", n(6, 60), |r, i, l| {
        let mut c = random_case(r, 100);
        (c.w, c.h) = (9, 9);
        c.opt &= !cfg!(miri) || ctx.thorough;
        c.app.clear();
        c.icc = None;
        l.what(&c.to_string());
        let px = c.pixels();
        let at = r.below(700) as usize;
        let f = if i % 2 == 0 { Fault::At { at, kind: 0 } } else { Fault::Panic { at } };
        let (s, _) = Sink::new(f, 0, 0, 5);
        let _ = guard(|| c.encode_to(s, &px));
        l.eval(&format!("{} {}", c, at), true);
        Ok(())
    });
}

fn mini_case(r: &mut Rng, l: &mut Local, ct: u8, w: u16, h: u16) -> Res {
    let mut c = random_case(r, 64);
    c.ct = ct;
    c.w = w;
    c.h = h;
    c.buf = false;
    c.extra = 0;
    c.app.clear();
    c.icc = None;
    if c.prog.is_some() {
        c.prog = Some(3);
    }
    c.opt &= !cfg!(miri) || l.ctx.thorough;
    l.what(&c.to_string());
    let px = c.pixels().into_boxed_slice();
    let v = c.encode_px(&px).map_err(|e| format!("{:?}", e))?;
    std::hint::black_box(v.iter().fold(0u8, |a, b| a ^ b));
    if c.encode_px(&px[..px.len() - 1]).is_ok() {
        return Err("a buffer that is one byte short was accepted".into());
    }
    l.count("exact_size_slices", 1);
    l.eval(&c.to_string(), true);
    Ok(())
}
