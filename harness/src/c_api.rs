//! C13-C16, C20: errors, faults, files, segments, settings.
use crate::c_stream::*;
use crate::case::*;
use crate::ctx::*;
use crate::jpeg;
use crate::model::*;
use crate::rng::Rng;
use crate::sink::*;
use jpeg_encoder::*;

// ---------------------------------------------------------------- C13

fn show(r: &Result<(), EncodingError>) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err(e) => format!("{:?}", e),
    }
}

/// Run an invalid request against a recording destination: documented error, no byte written.
fn refuse(
    l: &mut Local,
    what: &str,
    f: impl FnOnce(Sink) -> Result<(), EncodingError>,
    ok: impl Fn(&EncodingError) -> bool,
) -> Res {
    l.what(what);
    let (sink, log) = Sink::new(Fault::None, 0, 0, 1);
    let res = guard(|| f(sink)).map_err(|p| format!("panic on an invalid request: {}", p))?;
    let g = log.lock().unwrap();
    match &res {
        Ok(()) => return Err("an invalid request succeeded".into()),
        Err(e) if !ok(e) => return Err(format!("wrong error: {:?}", e)),
        Err(e) => {
            if e.to_string().is_empty() {
                return Err("empty error text".into());
            }
        }
    }
    if !g.data.is_empty() {
        return Err(format!("{} bytes were written before the request was refused", g.data.len()));
    }
    l.count("refused_requests", 1);
    l.eval(what, true);
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    // zero dimensions: every colour type, both entry points, every mode
    ctx.run("zero", ctx.n(9 * 64, 9 * 2000), |r, i, l| {
        let mut c = random_case(r, 64);
        c.ct = (i % 9) as u8;
        let (w, h) = match r.below(4) {
            0 => (0, 0),
            1 => (0, 1 + r.below(65535) as u16),
            2 => (1 + r.below(65535) as u16, 0),
            _ => *r.pick(&[(0u16, 65535u16), (65535, 0), (1, 0), (0, 1)]),
        };
        let ok = move |e: &EncodingError| matches!(e, EncodingError::ZeroImageDimensions{width,height} if *width==w && *height==h);
        let len = *r.pick(&[0usize, 1, 100, 5000]);
        refuse(
            l,
            &format!("encode {}x{} len {} {}", w, h, len, c),
            |s| {
                let mut s = s;
                let mut e = Encoder::new(&mut s as Dst, c.q);
                c.configure(&mut e)?;
                e.encode(&vec![7u8; len], w, h, c.color())
            },
            ok,
        )?;
        refuse(
            l,
            &format!("encode_image {}x{} {}", w, h, c),
            |s| {
                let mut s = s;
                let mut e = Encoder::new(&mut s as Dst, c.q);
                c.configure(&mut e)?;
                e.encode_image(By(&Blank { w, h, t: c.jpeg_color() }))
            },
            ok,
        )
    });
    // short buffers
    let short = |l: &mut Local, r: &mut Rng, ct: u8, w: u16, h: u16, len: usize| -> Res {
        let mut c = random_case(r, 64);
        c.ct = ct;
        let req = (w as usize * h as usize).checked_mul(c.bpp());
        let data = vec![9u8; len];
        refuse(
            l,
            &format!("short buffer {} of {:?} {}x{} {}", len, req, w, h, c),
            |s| {
                let mut s = s;
                let mut e = Encoder::new(&mut s as Dst, c.q);
                c.configure(&mut e)?;
                e.encode(&data, w, h, c.color())
            },
            |e| matches!(e, EncodingError::BadImageData{length,required} if *length==len && (req.is_none() || Some(*required)==req)),
        )
    };
    ctx.run("short_small", 9 * 40, |r, i, l| {
        let ct = (i % 9) as u8;
        let (w, h) = (r.range(1, 12) as u16, r.range(1, 8) as u16);
        let req = w as usize * h as usize * [1, 3, 4, 3, 4, 3, 4, 4, 4][ct as usize];
        for len in 0..req {
            short(l, r, ct, w, h, len)?;
        }
        Ok(())
    });
    ctx.run("short_huge", ctx.n(9 * 100, 9 * 4000), |r, i, l| {
        let ct = (i % 9) as u8;
        let (w, h) = match r.below(3) {
            0 => (65535, 65535),
            1 => (*r.pick(&[65535u16, 32768, 16384, 43691, 21846, 65534]), *r.pick(&[65535u16, 32768, 49152, 65534])),
            _ => (r.range(1000, 65535) as u16, r.range(1000, 65535) as u16),
        };
        let len = *r.pick(&[0usize, 1, 3, 64, 65536, 300_000, 999_999]);
        short(l, r, ct, w, h, len)
    });
    // valid requests over the whole configuration space
    ctx.run("valid", ctx.n(15000, 500_000), |r, _, l| {
        let m = *r.pick(&[200usize, 2000, 9000]);
        let c = random_case(r, m);
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        let v = enc(&c, &px)?;
        if v.len() < 4 {
            return Err("success without a file".into());
        }
        l.count("valid_requests", 1);
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("valid_dims", ctx.n(48, 2000), |r, i, l| {
        let mut c = random_case(r, 64);
        let big = *r.pick(&[65535u16, 65534, 65528, 65527, 32769, 40000]);
        let small = r.range(1, 9) as u16;
        (c.w, c.h) = if i % 2 == 0 { (big, small) } else { (small, big) };
        c.icc = None;
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        enc(&c, &px)?;
        l.count("valid_requests", 1);
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("valid_big", ctx.n(10, 200), |r, i, l| {
        let c = big_case(r, i);
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        enc(&c, &px)?;
        l.count("valid_requests", 1);
        l.eval(&s, true);
        Ok(())
    });
    // skewed statistics and restart/optimisation interplay: missing codes show up as panics here
    ctx.run("valid_skew", ctx.n(600, 20000), |r, _, l| {
        let mut c = random_case(r, 6000);
        c.opt = true;
        c.ri = r.range(1, 40) as u16;
        c.img = *r.pick(&[2u8, 8, 10, 12, 5]);
        let s = c.to_string();
        l.what(&s);
        let px = c.pixels();
        enc(&c, &px)?;
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("valid_fib", ctx.n(20, 30), |r, i, l| {
        let (c, px) = crate::c_tables::fib_picture(i as usize + 4, r);
        let s = format!("fibonacci picture over {} symbols: {}", i + 4, c);
        l.what(&s);
        enc(&c, &px)?;
        l.eval(&s, true);
        Ok(())
    });
    ctx.run("valid_fibdeep", 1, |r, _, l| {
        let (c, px) = crate::c_tables::fib_picture(34, r);
        let s = format!("fibonacci picture over 34 symbols: {}", c);
        l.what(&s);
        enc(&c, &px)?;
        l.eval(&s, true);
        Ok(())
    });
    // segments: every number x lengths around the limits
    ctx.run("segments", 256, |_, i, l| {
        let nr = i as u8;
        for len in [0usize, 1, 2, 1000, 65532, 65533, 65534, 65535, 65536, 65537, 131072, 1 << 20] {
            l.what(&format!("add_app_segment({}, {} bytes)", nr, len));
            let data = vec![0x5Au8; len];
            let mut out = vec![];
            let mut e = Encoder::new(&mut out as Dst, 80);
            let res = guard(|| e.add_app_segment(nr, &data)).map_err(|p| format!("panic: {}", p))?;
            let good = match &res {
                Ok(()) => (1..=15).contains(&nr) && len <= 65533,
                Err(EncodingError::InvalidAppSegment(n)) => *n == nr && !(1..=15).contains(&nr),
                Err(EncodingError::AppSegmentTooLarge(n)) => *n == len && len > 65533,
                _ => false,
            };
            if !good {
                return Err(format!("unexpected result {}", show(&res)));
            }
            l.count("segment_requests", 1);
        }
        l.eval(&format!("segment number {}", nr), true);
        Ok(())
    });
    ctx.run("icc", 8, |_, i, l| {
        const MAX: usize = 255 * 65519;
        let len = [0usize, 1, MAX - 1, MAX, MAX + 1, 256 * 65519, 257 * 65519, 40_000_000][i as usize];
        l.what(&format!("add_icc_profile({} bytes)", len));
        let mut out = vec![];
        let mut e = Encoder::new(&mut out as Dst, 80);
        let data = vec![1u8; len];
        let res = guard(|| e.add_icc_profile(&data)).map_err(|p| format!("panic: {}", p))?;
        let good = match &res {
            Ok(()) => len <= MAX,
            Err(EncodingError::IccTooLarge(n)) => *n == len && len > MAX,
            _ => false,
        };
        if !good {
            return Err(format!("unexpected result {}", show(&res)));
        }
        l.eval(&format!("icc length {}", len), true);
        Ok(())
    });
    // the one documented panic
    ctx.run("scans", 256, |_, i, l| {
        l.what(&format!("set_progressive_scans({})", i));
        let mut out = vec![];
        let mut e = Encoder::new(&mut out as Dst, 80);
        let r = guard(|| e.set_progressive_scans(i as u8));
        if r.is_ok() != (2..=64).contains(&i) {
            return Err(format!("set_progressive_scans({}) {}", i, if r.is_ok() { "accepted" } else { "panicked" }));
        }
        drop(e);
        l.eval(&format!("scans {}", i), true);
        Ok(())
    });
    // all factor pairs and all qualities through the constructor
    ctx.run("factors", 256, |_, i, l| {
        for v in 0..=255u8 {
            l.what(&format!("from_factors({}, {})", i, v));
            guard(|| SamplingFactor::from_factors(i as u8, v)).map_err(|p| format!("panic: {}", p))?;
        }
        let c = Case { q: i as u8, w: 17, h: 11, img: 0, ..Case::default() };
        l.what(&c.to_string());
        let px = c.pixels();
        enc(&c, &px)?;
        l.eval(&format!("quality {}", i), true);
        Ok(())
    });
    #[cfg(feature = "std")]
    ctx.run("errors", 1, |_, _, l| {
        use std::error::Error;
        let io = EncodingError::from(std::io::Error::new(std::io::ErrorKind::Other, "inner"));
        if io.source().map(|s| s.to_string()) != Some("inner".into()) || io.to_string() != "inner" {
            return Err("IoError does not expose its cause".into());
        }
        for (e, parts) in [
            (EncodingError::InvalidAppSegment(77), vec!["77"]),
            (EncodingError::AppSegmentTooLarge(70001), vec!["70001"]),
            (EncodingError::IccTooLarge(99999999), vec!["99999999"]),
            (EncodingError::BadImageData { length: 12, required: 3456 }, vec!["12", "3456"]),
            (EncodingError::ZeroImageDimensions { width: 0, height: 987 }, vec!["0", "987"]),
            (EncodingError::Write("custom".into()), vec!["custom"]),
        ] {
            let t = e.to_string();
            for p in parts {
                if !t.contains(p) {
                    return Err(format!("error text {:?} does not mention {}", t, p));
                }
            }
        }
        l.eval("error texts", true);
        Ok(())
    });
}

// ---------------------------------------------------------------- C14

fn err_is_injected(e: &EncodingError, kind: u8, token: u64) -> bool {
    let want = if kind == 36 { std::io::Error::new(std::io::ErrorKind::Interrupted, format!("injected-{}", token)) } else { injected(kind, token) };
    #[cfg(feature = "std")]
    {
        let text = want.to_string();
        if !e.to_string().contains(&text) || std::error::Error::source(e).map(|s| s.to_string()) != Some(text) {
            return false;
        }
        matches!(e, EncodingError::IoError(x) if x.kind() == want.kind() && x.to_string() == want.to_string()
            && x.raw_os_error() == want.raw_os_error() && x.get_ref().is_some() == want.get_ref().is_some())
    }
    #[cfg(not(feature = "std"))]
    {
        matches!(e, EncodingError::Write(s) if *s == format!("{:?} {}", want.kind(), want))
    }
}

fn err_is_zero(e: &EncodingError) -> bool {
    #[cfg(feature = "std")]
    {
        matches!(e, EncodingError::IoError(x) if x.kind() == std::io::ErrorKind::WriteZero)
    }
    #[cfg(not(feature = "std"))]
    {
        matches!(e, EncodingError::Write(s) if s == "zero")
    }
}

/// one encode against a faulty destination
fn faulty(l: &mut Local, c: &Case, px: &[u8], full: &[u8], fault: Fault, chunk: usize, intr: u64, token: u64, by_ref: bool) -> Res {
    l.tick();
    l.what(&format!("{} fault={:?} chunk={} intr={}", c, fault, chunk, intr));
    let (mut sink, log) = Sink::new(fault.clone(), chunk, intr, token);
    let res = if by_ref { guard(|| c.encode_to(&mut sink, px)) } else { guard(|| c.encode_to(sink, px)) };
    let g = log.lock().unwrap_or_else(|e| e.into_inner());
    l.count("destination_calls", g.writes);
    l.count("interruptions", g.interrupted);
    let expect_fault = match &fault {
        Fault::None => None,
        Fault::At { at, .. } | Fault::Once { at, .. } | Fault::Zero { at } | Fault::Panic { at } => Some(*at).filter(|&a| a < full.len()),
    };
    if g.after_error > 0 {
        return Err(format!("{} bytes were handed to the destination after it had failed", g.after_error));
    }
    match expect_fault {
        None => {
            match res {
                Err(p) => return Err(format!("panic: {}", p)),
                Ok(Err(e)) => return Err(format!("error {:?} although the destination accepted everything", e)),
                Ok(Ok(())) => {}
            }
            if g.data != full {
                return Err(format!("the destination holds {} bytes that differ from the {} of a plain encode", g.data.len(), full.len()));
            }
            l.count("complete_encodes", 1);
        }
        Some(at) => {
            match (&fault, res) {
                (Fault::Panic { .. }, Err(p)) => {
                    if !p.starts_with(&format!("injected-{}", token)) {
                        return Err(format!("another panic replaced the destination's: {}", p));
                    }
                }
                (_, Err(p)) => return Err(format!("panic: {}", p)),
                (_, Ok(Ok(()))) => return Err(format!("success although the destination failed at byte {} of {}", at, full.len())),
                (Fault::Zero { .. }, Ok(Err(e))) => {
                    if !err_is_zero(&e) {
                        return Err(format!("destination accepted nothing, reported error {:?}", e));
                    }
                }
                (Fault::At { kind, .. }, Ok(Err(e))) | (Fault::Once { kind, .. }, Ok(Err(e))) => {
                    if !err_is_injected(&e, *kind, token) {
                        return Err(format!("reported {:?} instead of the destination's {:?}", e, injected(*kind, token)));
                    }
                }
                (_, Ok(Err(e))) => return Err(format!("unexpected {:?}", e)),
            }
            if g.data != full[..at] {
                return Err(format!("the {} accepted bytes are not the first {} of the file", g.data.len(), at));
            }
            l.count("faults_observed", 1);
        }
    }
    l.t.evals += 1;
    Ok(())
}

fn fault_case(r: &mut Rng, i: u64, maxpix: usize) -> Case {
    let mut c = random_case(r, maxpix);
    c.icc = None;
    match i % 4 {
        0 => {
            c.prog = None;
            c.opt = false;
        }
        1 => {
            c.prog = None;
            c.opt = true;
        }
        2 => {
            c.prog = Some(r.range(2, 12) as u8);
            c.opt = false;
        }
        _ => {
            c.prog = Some(r.range(2, 64) as u8);
            c.opt = true;
        }
    }
    if r.chance(1, 2) {
        c.ri = r.range(1, 4) as u16;
    }
    c
}

pub fn c14(ctx: &Ctx) {
    // a fault at every single byte offset (and one past the end)
    ctx.run("every_offset", ctx.n(96, 3000), |r, i, l| {
        let mut c = fault_case(r, i, 200);
        c.app.truncate(1);
        let px = c.pixels();
        l.what(&c.to_string());
        let full = enc(&c, &px)?;
        for at in 0..=full.len() {
            let kind = r.below(FLAVOURS) as u8;
            let tok = r.next() >> 20;
            faulty(l, &c, &px, &full, Fault::At { at, kind }, 0, 0, tok, at % 2 == 0)?;
            faulty(l, &c, &px, &full, Fault::Once { at, kind }, 0, 0, tok, false)?;
            match at % 5 {
                0 => faulty(l, &c, &px, &full, Fault::Zero { at }, 0, 0, tok, false)?,
                1 => faulty(l, &c, &px, &full, Fault::Panic { at }, 0, 0, tok, true)?,
                2 => faulty(l, &c, &px, &full, Fault::At { at, kind }, 3, 4, tok, false)?,
                3 => faulty(l, &c, &px, &full, Fault::Once { at, kind }, 2, 0, tok, false)?,
                _ => {}
            }
            l.cover("fault_offsets", at as u64);
            l.cover("error_kinds", kind as u64);
        }
        l.count("files_with_every_offset_failed", 1);
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // bigger files: offsets in the entropy data, around markers, at the very end
    ctx.run("larger", ctx.n(200, 8000), |r, i, l| {
        let c = fault_case(r, i, 6000);
        let px = c.pixels();
        l.what(&c.to_string());
        let full = enc(&c, &px)?;
        let j = jpeg::parse(&full)?;
        let mut offs: Vec<usize> = (0..6).map(|_| r.below(full.len() as u64 + 1) as usize).collect();
        for s in j.scans.iter().take(6) {
            for d in [-2i64, -1, 0, 1] {
                offs.push((s.start as i64 + d).max(0) as usize);
                offs.push((s.end as i64 + d).max(0) as usize);
            }
            for x in s.rst_at.iter().take(3) {
                offs.extend([*x - 1, *x, x + 1, x + 2]);
            }
        }
        for d in 0..12 {
            offs.push(full.len() - d.min(full.len()));
        }
        offs.sort();
        offs.dedup();
        for at in offs {
            let kind = r.below(FLAVOURS) as u8;
            let f = match r.below(4) {
                0 => Fault::At { at, kind },
                1 => Fault::Once { at, kind },
                2 => Fault::Zero { at },
                _ => Fault::Panic { at },
            };
            let chunk = *r.pick(&[0usize, 0, 1, 5, 100]);
            faulty(l, &c, &px, &full, f, chunk, *r.pick(&[0u64, 0, 3]), r.next() >> 20, r.chance(1, 2))?;
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    ctx.run("big", ctx.n(8, 100), |r, i, l| {
        let c = big_case(r, i);
        let px = c.pixels();
        l.what(&c.to_string());
        let full = enc(&c, &px)?;
        for at in [full.len() - 1, full.len() - 2, r.below(full.len() as u64) as usize, full.len().min(65536 + r.below(9) as usize)] {
            let kind = r.below(FLAVOURS) as u8;
            let f = if r.chance(1, 2) { Fault::At { at, kind } } else { Fault::Once { at, kind } };
            faulty(l, &c, &px, &full, f, 0, 0, r.next() >> 20, r.chance(1, 2))?;
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // destinations that accept everything and fail when they are asked to pass it on
    ctx.run("late_failure", ctx.n(1200, 40_000), |r, i, l| {
        let c = fault_case(r, i, 1500);
        let px = c.pixels();
        l.what(&c.to_string());
        let full = enc(&c, &px)?;
        for k in 0..4 {
            let kind = if k == 0 { 36 } else { r.below(FLAVOURS + 1) as u8 };
            let times = *r.pick(&[1u64, 1, 2, 5, u64::MAX]);
            // interrupted for ever could be retried for ever
            let times = if kind == 36 { times.min(5) } else { times };
            let tok = r.next() >> 20;
            l.what(&format!("{} the first {} flushes fail with {}", c, times, kind));
            let mut sink = FlushSink::new(kind, tok, times);
            let res = guard(|| c.encode_to(&mut sink, &px)).map_err(|p| format!("panic: {}", p))?;
            match res {
                // nothing was ever passed on, or passing it on was repeated until it worked
                Ok(()) if sink.failed == 0 || (kind == 36 && sink.last_ok) => {
                    if sink.data != full {
                        return Err("the destination does not hold the file of a plain encode".into());
                    }
                }
                Ok(()) => return Err(format!("success although the destination's flush failed ({} of {} calls)", sink.failed, sink.flushes)),
                Err(e) => {
                    if sink.failed == 0 || !err_is_injected(&e, kind, tok) {
                        return Err(format!("{:?} although {} flushes failed with error {}", e, sink.failed, kind));
                    }
                    if sink.after_error > 0 || !full.starts_with(&sink.data) {
                        return Err(format!("{} bytes handed over after a failed flush", sink.after_error));
                    }
                    l.count("flush_errors_reported", 1);
                }
            }
            l.cover("flush_error_kinds", kind as u64);
            l.t.evals += 1;
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // destinations that chunk and interrupt but never fail
    ctx.run("chunked", ctx.n(1500, 40_000), |r, i, l| {
        let c = fault_case(r, i, 3000);
        let px = c.pixels();
        l.what(&c.to_string());
        let full = enc(&c, &px)?;
        for (chunk, intr) in [(1usize, 0u64), (1, 2), (7, 3), (0, 2), (64, 5), (4096, 2)] {
            faulty(l, &c, &px, &full, Fault::None, chunk, intr, r.next() >> 20, r.chance(1, 2))?;
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
    // large segments go through the same path
    ctx.run("segments", ctx.n(24, 400), |r, _, l| {
        let mut c = fault_case(r, 0, 60);
        c.app = vec![(3, 65533, 1), (9, 1000, 2)];
        c.icc = Some((70_000, 3));
        let px = c.pixels();
        l.what(&c.to_string());
        let full = enc(&c, &px)?;
        for _ in 0..40 {
            let at = r.below(full.len() as u64 + 1) as usize;
            let kind = r.below(FLAVOURS) as u8;
            faulty(l, &c, &px, &full, Fault::At { at, kind }, *r.pick(&[0usize, 1000]), 0, r.next() >> 20, false)?;
        }
        l.eval(&c.to_string(), true);
        Ok(())
    });
}

// ---------------------------------------------------------------- C15

#[cfg(all(feature = "std", unix, not(miri)))]
mod file {
    use super::*;
    #[repr(C)]
    struct Rlimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(r: i32, l: *const Rlimit) -> i32;
        fn getrlimit(r: i32, l: *mut Rlimit) -> i32;
        fn signal(s: i32, h: usize) -> usize;
    }
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;

    fn limit(n: Option<u64>) {
        unsafe {
            let mut l = Rlimit { cur: 0, max: 0 };
            getrlimit(RLIMIT_FSIZE, &mut l);
            l.cur = n.unwrap_or(l.max).min(l.max);
            setrlimit(RLIMIT_FSIZE, &l);
        }
    }

    fn to_file(c: &Case, px: &[u8], path: &std::path::Path) -> Result<Result<(), EncodingError>, String> {
        guard(|| {
            let mut e = Encoder::new_file(path, c.q)?;
            c.configure(&mut e)?;
            if c.buf {
                e.encode_image(By(&PlaneImage { case: c, planes: planes(c, px), w: c.w, h: c.h }))
            } else {
                e.encode(px, c.w, c.h, c.color())
            }
        })
    }

    /// make the output exactly `n` bytes long by adding an application segment
    fn sized(c: &Case, px: &[u8], n: usize) -> Option<Case> {
        let base = enc(c, px).ok()?.len();
        let mut c = c.clone();
        let mut need = n.checked_sub(base)?;
        while need > 65000 {
            c.app.push((4, 30000 - 4, 9));
            need -= 30000;
        }
        if need > 0 && need < 4 {
            return None;
        }
        if need > 0 {
            c.app.push((5, need - 4, 10));
        }
        Some(c)
    }

    pub fn c15(ctx: &Ctx) {
        let dir = std::path::PathBuf::from(std::env::var("JMON_WORK").unwrap_or("/verif/work".into()))
            .join(format!("c15-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let dir = dir.canonicalize().unwrap();
        let d = &dir;
        let ok_file = |l: &mut Local, c: &Case, px: &[u8], path: &std::path::Path, old: Option<usize>| -> Res {
            l.what(&format!("{} previous content {:?}", c, old));
            match old {
                Some(n) => std::fs::write(path, vec![0xEEu8; n]).unwrap(),
                None => {
                    let _ = std::fs::remove_file(path);
                }
            }
            let want = enc(c, px)?;
            match to_file(c, px, path) {
                Err(p) => return Err(format!("panic: {}", p)),
                Ok(Err(e)) => return Err(format!("error {:?} on a writable path", e)),
                Ok(Ok(())) => {}
            }
            let got = std::fs::read(path).map_err(|e| format!("success but unreadable: {}", e))?;
            if got != want {
                return Err(format!("success, but the file holds {} bytes that are not the {} bytes of the image", got.len(), want.len()));
            }
            l.count("files_complete", 1);
            l.cover("file_sizes", want.len() as u64);
            l.eval(&c.to_string(), true);
            Ok(())
        };
        let full_dev = |l: &mut Local, c: &Case, px: &[u8]| -> Res {
            l.what(&format!("/dev/full {}", c));
            match to_file(c, px, std::path::Path::new("/dev/full")) {
                Err(p) => Err(format!("panic: {}", p)),
                Ok(Ok(())) => Err("success although the device is full and no byte was stored".into()),
                Ok(Err(EncodingError::IoError(e))) if e.raw_os_error() == Some(28) => {
                    l.count("device_full_reported", 1);
                    l.eval(&format!("/dev/full {}", c), true);
                    Ok(())
                }
                Ok(Err(e)) => Err(format!("wrong error {:?}", e)),
            }
        };
        ctx.run("content", ctx.n(1200, 30_000), |r, i, l| {
            let c = random_case(r, 5000);
            let px = c.pixels();
            let path = d.join(format!("f{}", i));
            let old = *r.pick(&[None, None, Some(0usize), Some(10), Some(200_000)]);
            ok_file(l, &c, &px, &path, old)?;
            let _ = std::fs::remove_file(&path);
            Ok(())
        });
        // sizes around multiples of the usual buffer sizes
        ctx.run("buffer_edges", ctx.n(40, 400), |r, i, l| {
            let mut c = random_case(r, 100);
            c.app.clear();
            c.icc = None;
            c.ct = (i % 9) as u8;
            let px = c.pixels();
            let path = d.join(format!("b{}", i));
            for base in [4096i64, 8192, 16384, 24576, 32768, 65536] {
                for delta in [-2i64, -1, 0, 1, 2] {
                    if let Some(c) = sized(&c, &px, (base + delta) as usize) {
                        ok_file(l, &c, &px, &path, None)?;
                        full_dev(l, &c, &px)?;
                    }
                }
            }
            let _ = std::fs::remove_file(&path);
            Ok(())
        });
        ctx.run("device_full", ctx.n(1500, 30_000), |r, _, l| {
            let c = random_case(r, 8000);
            let px = c.pixels();
            full_dev(l, &c, &px)
        });
        // the file system refuses everything beyond byte n, for every n
        ctx.run_t("size_limit", ctx.n(24, 400), 1, |r, i, l| {
            unsafe {
                signal(SIGXFSZ, 1);
            }
            let mut c = random_case(r, 120);
            c.icc = None;
            c.app.truncate(1);
            let px = c.pixels();
            if i % 3 == 1 {
                if let Some(x) = sized(&c, &px, 8192 + r.below(2000) as usize) {
                    c = x;
                }
            } else if i % 3 == 2 {
                if let Some(x) = sized(&c, &px, 16384 + r.below(4000) as usize) {
                    c = x;
                }
            }
            let full = enc(&c, &px)?;
            let path = d.join("limit");
            let mut ns: Vec<u64> = if full.len() < 3000 {
                (0..full.len() as u64 + 3).collect()
            } else {
                let mut v: Vec<u64> = (0..60).map(|_| r.below(full.len() as u64)).collect();
                v.extend([0, 1, 8191, 8192, 8193, 16383, 16384, 16385]);
                v.extend((0..6).map(|k| full.len() as u64 - k));
                v.push(full.len() as u64 + 1);
                v
            };
            ns.sort();
            ns.dedup();
            for n in ns {
                let _ = std::fs::remove_file(&path);
                l.what(&format!("size limit {} of {}: {}", n, full.len(), c));
                limit(Some(n));
                let res = to_file(&c, &px, &path);
                limit(None);
                let res = res.map_err(|p| format!("panic: {}", p))?;
                let got = std::fs::read(&path).unwrap_or_default();
                if n >= full.len() as u64 {
                    if res.is_err() || got != full {
                        return Err(format!("{} with {} bytes on disk although the whole file fits", show(&res), got.len()));
                    }
                } else {
                    match res {
                        Ok(()) => return Err(format!("success with only {} of {} bytes on disk", got.len(), full.len())),
                        Err(EncodingError::IoError(_)) => {}
                        Err(e) => return Err(format!("wrong error {:?}", e)),
                    }
                    if got != full[..got.len()] {
                        return Err("the file is not a prefix of the image".into());
                    }
                    l.count("size_limit_faults_reported", 1);
                }
                l.cover("limit_offsets", n);
            }
            l.eval(&format!("size limits over {}", c), true);
            let _ = std::fs::remove_file(&path);
            Ok(())
        });
        // paths that cannot be created
        ctx.run("paths", 4, |r, i, l| {
            let c = random_case(r, 100);
            let px = c.pixels();
            let p = match i {
                0 => d.join("missing-dir").join("x.jpg"),
                1 => d.clone(),
                2 => {
                    let f = d.join("plain");
                    std::fs::write(&f, b"x").unwrap();
                    f.join("y.jpg")
                }
                _ => d.join("n".repeat(300)),
            };
            l.what(&format!("unusable path {}", p.display()));
            match to_file(&c, &px, &p) {
                Err(m) => Err(format!("panic: {}", m)),
                Ok(Err(EncodingError::IoError(e))) => {
                    l.count("unusable_paths_reported", 1);
                    l.eval(&format!("{:?} {}", e.kind(), i), true);
                    Ok(())
                }
                Ok(x) => Err(format!("unusable path gave {}", show(&x))),
            }
        });
        // any name the file system takes is a name: bytes that are no UTF-8, white space at the ends, other extensions,
        // dots, links; given as any of the types a path can be
        let odd: Vec<Vec<u8>> = [
            &b"p\xFFq\xFE.jpg"[..], b"\xC3", b" lead.jpg", b"trail.jpg ", b"nl.jpg\n", b"tab\t", b"dot.", b".hidden", b"...", b"noext", b"x.png", b"x.JPG.tmp",
            b"-rf", b"~", b"$HOME", b"%41%00", b"a:b", b"c\\d.jpg", b"*?.jpg", b"\"q\"", b"'s'", b"\xE2\x98\x83.jpg", b"\xEF\xBF\xBD.jpg", b"file:", b"\x01\x02", b"CON", b"./././dot.jpg", b"sub/../up.jpg", b"sub//twice.jpg",
        ]
        .iter()
        .map(|x| x.to_vec())
        .chain([vec![b'n'; 255], vec![0xE9; 200]])
        .collect();
        ctx.run("names", 2 * odd.len() as u64, |r, i, l| {
            use std::os::unix::ffi::{OsStrExt, OsStringExt};
            let sub = d.join(format!("names{}", i));
            std::fs::create_dir_all(sub.join("sub")).unwrap();
            let name = std::ffi::OsStr::from_bytes(&odd[i as usize / 2]);
            let path = sub.join(name);
            let c = random_case(r, 2000);
            let px = c.pixels();
            if i % 2 == 0 {
                ok_file(l, &c, &px, &path, None)?;
                ok_file(l, &c, &px, &path, Some(9000))?;
            } else {
                // through a link, and opened while another encoder is at work on a file next to it
                let link = sub.join("link");
                std::os::unix::fs::symlink(&path, &link).unwrap();
                let c2 = random_case(r, 2000);
                let px2 = c2.pixels();
                l.what(&format!("{:?} and a link to it: {} / {}", name, c, c2));
                let other = sub.join("other.jpg");
                let (w1, w2) = (enc(&c, &px)?, enc(&c2, &px2)?);
                let r = guard(|| {
                    let mut a = match r.below(3) {
                        0 => Encoder::new_file(&link, c.q)?,
                        1 => Encoder::new_file(path.as_os_str(), c.q)?,
                        _ => Encoder::new_file(std::ffi::OsString::from_vec(path.as_os_str().as_bytes().to_vec()), c.q)?,
                    };
                    let mut b = Encoder::new_file(other.clone(), c2.q)?;
                    c2.configure(&mut b)?;
                    c.configure(&mut a)?;
                    if c2.buf {
                        b.encode_image(By(&PlaneImage { case: &c2, planes: planes(&c2, &px2), w: c2.w, h: c2.h }))?;
                    } else {
                        b.encode(&px2, c2.w, c2.h, c2.color())?;
                    }
                    if c.buf {
                        a.encode_image(By(&PlaneImage { case: &c, planes: planes(&c, &px), w: c.w, h: c.h }))
                    } else {
                        a.encode(&px, c.w, c.h, c.color())
                    }
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(x) => return Err(show(&x)),
                    Err(p) => return Err(format!("panic: {}", p)),
                }
                if std::fs::read(&path).unwrap_or_default() != w1 || std::fs::read(&other).unwrap_or_default() != w2 {
                    return Err("success, but one of two files does not hold its image".into());
                }
                l.eval(&format!("link {} {}", i, c), true);
            }
            l.cover("file_names", i);
            std::fs::remove_dir_all(&sub).unwrap();
            Ok(())
        });
        // a longer old file must not shine through
        ctx.run("replace", ctx.n(100, 2000), |r, i, l| {
            let path = d.join(format!("r{}", i));
            for _ in 0..3 {
                let c = random_case(r, 3000);
                let px = c.pixels();
                let want = enc(&c, &px)?;
                l.what(&c.to_string());
                match to_file(&c, &px, &path) {
                    Ok(Ok(())) => {}
                    Ok(x) => return Err(show(&x)),
                    Err(p) => return Err(format!("panic: {}", p)),
                }
                if std::fs::read(&path).unwrap_or_default() != want {
                    return Err("re-created file differs from the image".into());
                }
                l.count("files_complete", 1);
            }
            let _ = std::fs::remove_file(&path);
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&dir);
    }
}
#[cfg(all(feature = "std", unix, not(miri)))]
pub use file::c15;

// ---------------------------------------------------------------- C16

enum Item {
    App(u8, Vec<u8>),
    Icc(Vec<u8>),
}

/// does the user part of the segment list realise the accepted additions, in order?
fn match_items(items: &[Item], segs: &[&(u8, Vec<u8>)]) -> Result<(), String> {
    let mut p = 0;
    for (n, it) in items.iter().enumerate() {
        match it {
            Item::App(nr, d) => {
                let s = segs.get(p).ok_or_else(|| format!("addition {} (APP{}, {} bytes) is missing", n, nr, d.len()))?;
                if s.0 != *nr || s.1 != *d {
                    return Err(format!("addition {}: APP{} with {} bytes, found APP{} with {} bytes or other content", n, nr, d.len(), s.0, s.1.len()));
                }
                p += 1;
            }
            Item::Icc(d) => {
                let first = segs.get(p);
                let is_icc = |s: &&(u8, Vec<u8>)| s.0 == 2 && s.1.len() >= 14 && s.1.starts_with(b"ICC_PROFILE\0");
                if d.is_empty() {
                    // an empty profile may be stored as nothing or as one empty chunk
                    if first.map_or(false, |s| is_icc(s) && s.1.len() == 14 && s.1[12] == 1 && s.1[13] == 1) {
                        p += 1;
                    }
                    continue;
                }
                let f = first.filter(|s| is_icc(s)).ok_or_else(|| format!("addition {}: no ICC chunk", n))?;
                let cnt = f.1[13] as usize;
                let mut got = vec![];
                for k in 0..cnt {
                    let s = segs.get(p + k).filter(|s| is_icc(s)).ok_or_else(|| format!("addition {}: chunk {} of {} missing", n, k + 1, cnt))?;
                    if s.1[12] as usize != k + 1 || s.1[13] as usize != cnt {
                        return Err(format!("addition {}: chunk numbered {}/{} where {}/{} belongs", n, s.1[12], s.1[13], k + 1, cnt));
                    }
                    got.extend_from_slice(&s.1[14..]);
                }
                if got != *d {
                    return Err(format!("addition {}: profile of {} bytes reassembles to {} other bytes", n, d.len(), got.len()));
                }
                p += cnt;
            }
        }
    }
    if p != segs.len() {
        return Err(format!("{} application segments nobody added", segs.len() - p));
    }
    Ok(())
}

/// payloads that programs treat specially, with the segment number they usually come in
const SIGNATURES: [(u8, &[u8]); 20] = [
    (14, b"Adobe\0\x64\0\0\0\0\x01"),
    (14, b"Adobe\0\0\0\0\0\0\x02"),
    (14, b"Adobe\0\0\0\0\0\0\0"),
    (2, b"ICC_PROFILE\0\x01\x01"),
    (2, b"ICC_PROFILE\0\x05\x07"),
    (1, b"Exif\0\0II*\0\x08\0\0\0"),
    (1, b"Exif\0\0MM\0*"),
    (1, b"http://ns.adobe.com/xap/1.0/\0"),
    (1, b"http://ns.adobe.com/xmp/extension/\0"),
    (13, b"Photoshop 3.0\x008BIM"),
    (2, b"MPF\0II*\0"),
    (2, b"FPXR\0"),
    (12, b"Ducky\0"),
    (11, b"JP\0\x01"),
    (8, b"SPIFF\0"),
    (3, b"Meta"),
    (15, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0"),
    (1, b"JFXX\0\x10"),
    (4, b"\xFF\xD8\xFF\xE0\0\x10JFIF\0"),
    (5, b"\xFF\xD9\xFF\xDA\0\x08"),
];

fn c16_history(l: &mut Local, r: &mut Rng, ops: &[(u8, u8, usize)]) -> Res {
    const MAX: usize = 255 * 65519;
    let mut c = random_case(r, 300);
    c.app.clear();
    c.icc = None;
    let px = c.pixels();
    let mut out = vec![];
    let mut items = vec![];
    let mut log = format!("{} ops=", c);
    let res = guard(|| -> Res {
        let mut e = Encoder::new(&mut out as Dst, c.q);
        c.configure(&mut e).map_err(|e| format!("{:?}", e))?;
        for &(op, nr, len) in ops {
            let mut d = vec![0u8; len];
            match r.below(8) {
                0 => {}
                1 => d.fill(0xFF),
                // again what was added before, as far as it goes
                2 => {
                    if let Some(Item::App(_, o) | Item::Icc(o)) = items.last() {
                        for (a, b) in d.iter_mut().zip(o.iter()) {
                            *a = *b;
                        }
                    }
                }
                _ => r.fill(&mut d),
            }
            if op == 1 && len >= 128 && r.chance(3, 4) {
                // the header of a profile; the size it states may be wrong
                let size = *r.pick(&[len as u32, len as u32, len as u32 - 1, len as u32 / 2, 128, 0, 560, u32::MAX]);
                d[..4].copy_from_slice(&size.to_be_bytes());
                d[4..8].copy_from_slice(b"lcms");
                d[8..12].copy_from_slice(&[4, 0x30, 0, 0]);
                d[12..16].copy_from_slice(b"mntr");
                d[16..20].copy_from_slice(*r.pick(&[b"RGB ", b"GRAY", b"CMYK", b"YCbr", b"Lab "]));
                d[20..24].copy_from_slice(b"XYZ ");
                d[36..40].copy_from_slice(b"acsp");
            }
            let (op, nr) = if op >= 2 {
                // look like something the encoder or a decoder treats specially
                let (n, t) = SIGNATURES[if op == 2 { r.below(SIGNATURES.len() as u64) } else { op as u64 - 3 } as usize];
                let k = t.len().min(len);
                d[..k].copy_from_slice(&t[..k]);
                (2, if op > 2 || r.chance(1, 2) { n } else { nr })
            } else {
                (op, nr)
            };
            log.push_str(&format!("({},{},{})", op, nr, len));
            l.what(&log);
            if op == 1 {
                match e.add_icc_profile(&d) {
                    Ok(()) if len <= MAX => items.push(Item::Icc(d)),
                    Err(EncodingError::IccTooLarge(n)) if len > MAX && n == len => l.count("refused", 1),
                    x => return Err(format!("add_icc_profile({} bytes): {}", len, show(&x))),
                }
            } else {
                match e.add_app_segment(nr, &d) {
                    Ok(()) if (1..=15).contains(&nr) && len <= 65533 => items.push(Item::App(nr, d)),
                    Err(EncodingError::InvalidAppSegment(n)) if n == nr && !(1..=15).contains(&nr) => l.count("refused", 1),
                    Err(EncodingError::AppSegmentTooLarge(n)) if n == len && len > 65533 => l.count("refused", 1),
                    x => return Err(format!("add_app_segment({}, {} bytes): {}", nr, len, show(&x))),
                }
            }
        }
        let r = if c.buf {
            e.encode_image(By(&PlaneImage { case: &c, planes: planes(&c, &px), w: c.w, h: c.h }))
        } else {
            e.encode(&px, c.w, c.h, c.color())
        };
        r.map_err(|e| format!("encode failed: {:?}", e))
    });
    match res {
        Err(p) => return Err(format!("panic: {}", p)),
        Ok(x) => x?,
    }
    let j = jpeg::parse(&out)?; // also: all application segments precede the frame header
    let rest: Vec<&(u8, Vec<u8>)> = j.apps.iter().skip(1).collect();
    if c.ct >= 6 {
        // exactly one Adobe segment is the encoder's own; wherever it sits, the others must be the user's
        let t = if c.ct == 6 { 0 } else { 2 };
        let mut err = "no Adobe segment".to_string();
        let mut ok = false;
        for i in 0..rest.len() {
            if rest[i].0 == 14 && rest[i].1.len() == 12 && rest[i].1.starts_with(b"Adobe") && rest[i].1[11] == t {
                let mut o = rest.clone();
                o.remove(i);
                match match_items(&items, &o) {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(e) => err = e,
                }
            }
        }
        if !ok {
            return Err(err);
        }
    } else {
        match_items(&items, &rest)?;
    }
    l.count("accepted", items.len() as u64);
    l.count("segments_seen", j.apps.len() as u64);
    for it in &items {
        match it {
            Item::App(n, d) => {
                l.cover("segment_numbers", *n as u64);
                l.cover("segment_lengths", d.len() as u64);
            }
            Item::Icc(d) => l.cover("icc_lengths", d.len() as u64),
        }
    }
    l.eval(&log, !items.is_empty());
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    ctx.run("histories", ctx.n(2500, 80_000), |r, _, l| {
        let n = r.range(0, 7);
        let ops: Vec<(u8, u8, usize)> = (0..n)
            .map(|_| {
                let op = *r.pick(&[0u8, 0, 2, 2, 1]);
                let nr = *r.pick(&[1u8, 2, 3, 12, 13, 14, 15, 1, 14, 2, 0, 16, 255]);
                let nr = if r.chance(1, 3) { r.u8() } else { nr };
                let len = match r.below(10) {
                    0 => *r.pick(&[65532usize, 65533, 65534, 65535, 65536, 65537, 70000]),
                    1 => *r.pick(&[65518usize, 65519, 65520, 131037, 131038, 131039, 196557]),
                    2 => 0,
                    _ => r.below(400) as usize,
                };
                (op, nr, len)
            })
            .collect();
        c16_history(l, r, &ops)
    });
    ctx.run("limits", 15 * 8, |r, i, l| {
        let nr = 1 + (i % 15) as u8;
        let len = [0usize, 1, 253, 254, 65531, 65532, 65533, 65534][(i / 15) as usize];
        c16_history(l, r, &[(0, nr, len), (0, 1, 3)])
    });
    // every well-known kind of segment after every other, with a plain segment or a profile between
    let k = SIGNATURES.len() as u64;
    ctx.run("kinds", k * k, |r, i, l| {
        let mut ops = vec![(3 + (i / k) as u8, 0, r.range(10, 60) as usize), (3 + (i % k) as u8, 0, r.range(10, 60) as usize)];
        match r.below(3) {
            0 => ops.insert(1, (0, 7, 20)),
            1 => ops.insert(1, (1, 0, 90)),
            _ => {}
        }
        if r.chance(1, 2) {
            ops.insert(0, (0, 1 + r.below(15) as u8, 30));
        }
        if r.chance(1, 2) {
            ops.push(ops[r.below(ops.len() as u64) as usize]);
        }
        c16_history(l, r, &ops)
    });
    let icc: Vec<usize> = {
        let m = 65519usize;
        let mut v = vec![];
        for k in [1usize, 2, 3, 128, 253, 254, 255] {
            v.extend([k * m - 1, k * m, k * m + 1]);
        }
        v.extend([0, 1, 13, 256 * m, 256 * m + 1, 258 * m, 300 * m]);
        v
    };
    ctx.run("icc", icc.len() as u64, |r, i, l| c16_history(l, r, &[(1, 0, icc[i as usize])]));
    ctx.run("icc_twice", ctx.n(6, 60), |r, _, l| {
        let a = r.below(200_000) as usize;
        let b = r.below(200_000) as usize;
        c16_history(l, r, &[(0, 1, 10), (1, 0, a), (2, 2, 100), (1, 0, b), (0, 15, 20)])
    });
    ctx.run("many", ctx.n(4, 40), |r, _, l| {
        let ops: Vec<(u8, u8, usize)> = (0..500).map(|_| (0u8, 1 + r.below(15) as u8, r.below(60) as usize)).collect();
        c16_history(l, r, &ops)
    });
}

// ---------------------------------------------------------------- C20

#[derive(Clone)]
struct Model {
    q: u8,
    dens: Dens,
    sf: Option<u8>,
    qt: [Qt; 2],
    prog: Option<u8>,
    ri: u16,
    opt: bool,
}

fn check_getters<W: JfifWrite>(e: &Encoder<W>, m: &Model) -> Result<(), String> {
    if e.density() != m.dens.build() {
        return Err(format!("density() is {:?}, set was {:?}", e.density(), m.dens));
    }
    let sf = match m.sf {
        Some(s) => SFS[s as usize].1,
        None if m.q < 90 => SamplingFactor::F_2_2,
        None => SamplingFactor::F_1_1,
    };
    if e.sampling_factor() != sf {
        return Err(format!("sampling_factor() is {:?}, expected {:?}", e.sampling_factor(), sf));
    }
    for i in 0..2 {
        let (a, b) = (format!("{:?}", e.quantization_tables()[i]), format!("{:?}", m.qt[i].build()));
        if a != b {
            return Err(format!("quantization_tables()[{}] is {}, set was {}", i, a, b));
        }
    }
    if e.progressive_scans() != m.prog {
        return Err(format!("progressive_scans() is {:?}, expected {:?}", e.progressive_scans(), m.prog));
    }
    let ri = if m.ri == 0 { None } else { Some(m.ri) };
    if e.restart_interval() != ri {
        return Err(format!("restart_interval() is {:?}, expected {:?}", e.restart_interval(), ri));
    }
    if e.optimized_huffman_tables() != m.opt {
        return Err(format!("optimized_huffman_tables() is {}, expected {}", e.optimized_huffman_tables(), m.opt));
    }
    Ok(())
}

fn c20_history(l: &mut Local, r: &mut Rng, nops: u64) -> Res {
    let base = random_case(r, 900);
    let px = base.pixels();
    let q = base.q;
    let mut m = Model { q, dens: Dens::None, sf: None, qt: [Qt::Preset(0); 2], prog: None, ri: 0, opt: false };
    let mut out = vec![];
    let mut log = format!("{} history=", base);
    let mut apps: Vec<(u8, usize, u64)> = vec![];
    let res = guard(|| -> Res {
        let mut e = Encoder::new(&mut out as Dst, q);
        check_getters(&e, &m)?;
        for _ in 0..nops {
            let o = random_case(r, 64);
            let op = r.below(9);
            match op {
                0 => {
                    m.dens = o.dens;
                    e.set_density(o.dens.build());
                }
                1 => {
                    let s = r.below(16) as u8;
                    m.sf = Some(s);
                    e.set_sampling_factor(SFS[s as usize].1);
                }
                2 => {
                    m.qt = o.qt;
                    e.set_quantization_tables(o.qt[0].build(), o.qt[1].build());
                }
                3 => {
                    let p = r.chance(1, 2);
                    m.prog = if p { Some(4) } else { None };
                    e.set_progressive(p);
                }
                4 => {
                    let n = r.range(2, 64) as u8;
                    m.prog = Some(n);
                    e.set_progressive_scans(n);
                }
                5 => {
                    let n = *r.pick(&[0u16, 0, 1, 2, 5, 100, 65535, o.ri]);
                    m.ri = n;
                    e.set_restart_interval(n);
                }
                6 | 7 => {
                    m.opt = r.chance(1, 2);
                    e.set_optimized_huffman_tables(m.opt);
                }
                _ => {
                    // refused calls have no effect on anything
                    if r.chance(1, 3) {
                        let a = (r.range(1, 15) as u8, r.below(50) as usize, r.next() >> 40);
                        e.add_app_segment(a.0, &Case::app_data(&a)).map_err(|e| format!("{:?}", e))?;
                        apps.push(a);
                    } else if r.chance(1, 2) {
                        let _ = e.add_app_segment(0, b"x");
                    } else {
                        let _ = e.add_app_segment(3, &vec![0; 65534]);
                    }
                }
            }
            log.push_str(&format!("{},", op));
            l.what(&log);
            l.count("setter_calls", 1);
            check_getters(&e, &m)?;
            l.count("getter_sweeps", 1);
        }
        if base.buf {
            e.encode_image(By(&PlaneImage { case: &base, planes: planes(&base, &px), w: base.w, h: base.h }))
        } else {
            e.encode(&px, base.w, base.h, base.color())
        }
        .map_err(|e| format!("encode failed: {:?}", e))
    });
    match res {
        Err(p) => return Err(format!("panic: {}", p)),
        Ok(x) => x?,
    }
    // the same final settings, each set once, in two canonical orders, by a fresh encoder
    for order in 0..2 {
        let mut c = base.clone();
        c.dens = m.dens;
        c.sf = m.sf;
        c.qt = m.qt;
        c.prog = m.prog;
        c.ri = m.ri;
        c.opt = m.opt;
        c.app = apps.clone();
        c.icc = None;
        let fresh = if order == 0 {
            c.seed |= 1; // explicit scan count
            let mut o = vec![];
            guard(|| {
                let mut e = Encoder::new(&mut o as Dst, q);
                c.configure(&mut e)?;
                e.encode_image(By(&PlaneImage { case: &c, planes: planes(&base, &px), w: c.w, h: c.h }))
            })
            .map_err(|p| format!("panic: {}", p))?
            .map_err(|e| format!("{:?}", e))?;
            o
        } else {
            let mut o = vec![];
            guard(|| {
                let mut e = Encoder::new(&mut o as Dst, q);
                for a in &apps {
                    e.add_app_segment(a.0, &Case::app_data(a))?;
                }
                e.set_optimized_huffman_tables(m.opt);
                e.set_restart_interval(m.ri);
                if let Some(p) = m.prog {
                    e.set_progressive_scans(p);
                }
                e.set_quantization_tables(m.qt[0].build(), m.qt[1].build());
                if let Some(s) = m.sf {
                    // an alias means its factor
                    let f = SFS.iter().find(|x| x.2 == SFS[s as usize].2 && x.3 == SFS[s as usize].3).unwrap();
                    e.set_sampling_factor(f.1);
                }
                e.set_density(m.dens.build());
                e.encode(&px, base.w, base.h, base.color())
            })
            .map_err(|p| format!("panic: {}", p))?
            .map_err(|e| format!("{:?}", e))?;
            o
        };
        if fresh != out {
            return Err(format!("the history's file ({} bytes) differs from a fresh encoder with the same final settings ({} bytes)", out.len(), fresh.len()));
        }
        if order == 0 {
            let j = jpeg::parse(&out)?;
            let mut hc = c.clone();
            hc.app = apps.clone();
            check_header(&hc, &j)?;
        }
    }
    l.eval(&log, nops > 0);
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    ctx.run("histories", ctx.n(6000, 200_000), |r, _, l| {
        let n = *r.pick(&[0u64, 1, 2, 3, 5, 8, 15, 30]);
        c20_history(l, r, n)
    });
    ctx.run("defaults", 256, |r, i, l| {
        let q = i as u8;
        l.what(&format!("defaults at quality {}", q));
        let mut o = vec![];
        let e = Encoder::new(&mut o as Dst, q);
        check_getters(&e, &Model { q, dens: Dens::None, sf: None, qt: [Qt::Preset(0); 2], prog: None, ri: 0, opt: false })?;
        // the file shows the defaults: factors, tables, baseline, no restarts, density none
        for ct in [0u8, 1, 6, 8] {
            let c = Case { ct, w: 19, h: 21, q, img: 0, seed: r.next() >> 30, ..Case::default() };
            let px = c.pixels();
            let (_, j) = enc_parse(&c, &px)?;
            check_header(&c, &j)?;
            if !j.dris.is_empty() {
                return Err("restart interval announced by default".into());
            }
            let t = crate::c_tables::expected_table(Qt::Preset(0), q, true);
            let side = c.comp_tables().iter().position(|&s| s == 0).unwrap();
            let z = jpeg::zigzag();
            let got = j.qt[j.comps[side].tq].unwrap();
            if (0..64).any(|n| got[n] != t[z[n]]) {
                return Err("default luma table is not Annex K at this quality".into());
            }
        }
        l.eval(&format!("defaults at quality {}", q), true);
        Ok(())
    });
    ctx.run("factors", 256, |_, i, l| {
        for v in 0..=255u8 {
            let h = i as u8;
            l.what(&format!("from_factors({}, {})", h, v));
            let got = SamplingFactor::from_factors(h, v);
            let want = SFS.iter().take(8).find(|s| s.2 == h as usize && s.3 == v as usize).map(|s| s.1);
            if got != want {
                return Err(format!("from_factors({}, {}) is {:?}, expected {:?}", h, v, got, want));
            }
        }
        l.eval(&format!("factor pairs with horizontal {}", i), i < 8);
        Ok(())
    });
    ctx.run("aliases", ctx.n(8 * 30, 8 * 500), |r, i, l| {
        let a = 8 + (i % 8) as u8;
        let mut c = random_case(r, 1500);
        c.sf = Some(a);
        let f = SFS.iter().position(|x| x.2 == SFS[a as usize].2 && x.3 == SFS[a as usize].3).unwrap() as u8;
        let px = c.pixels();
        l.what(&c.to_string());
        let x = enc(&c, &px)?;
        c.sf = Some(f);
        if enc(&c, &px)? != x {
            return Err(format!("{} and {} give different files", SFS[a as usize].0, SFS[f as usize].0));
        }
        let j = jpeg::parse(&x)?;
        check_header(&c, &j)?;
        l.eval(&c.to_string(), true);
        Ok(())
    });
}
