//! Picture oracle: what the coefficients of a file must be, computed from the request alone.
use crate::case::Case;
use crate::dct;
use crate::jpeg::{zigzag, Jpeg};

/// Bound on the fixed-point error of the encoder's 8x scaled forward DCT, in units of 1/8 coefficient.
/// Analysis (DESIGN.md): first pass rounds to 1/4 sample units (0.5), carried through the second pass with gain
/// <= 2 (L1 norm of a basis row) = 1.1, final rounding 0.5, 13-bit constants 0.5: 2.1. Measured maximum: see evidence.
pub const DCT_ERR8: f64 = 2.5;

#[derive(Default, Clone, Debug)]
pub struct PicStats {
    pub exact_coefs: u64,
    pub box_coefs: u64,
    pub exact_blocks: u64,
    pub box_blocks: u64,
    pub edge_blocks: u64,
    pub pad_blocks: u64,
    /// max |kQ - C| - Q/2 in units of 1/8 coefficient, and max of error/tolerance
    pub max_excess8: f64,
    pub max_ratio: f64,
    pub max_ratio_q1: f64,
}

/// allowed |k*q - c| for quantiser q (file units)
pub fn tol(q: f64, c: f64) -> f64 {
    let d = 8.0 * q;
    // 15-bit reciprocal: relative error below (|v|+d)/65536 of a step
    q * (0.5 + (8.0 * c.abs() + d + DCT_ERR8) / 65536.0) + DCT_ERR8 / 8.0 + 1e-6
}

/// Compare every coefficient of `j` with the picture given as full resolution component planes.
pub fn check_picture(c: &Case, planes: &[Vec<u8>], j: &Jpeg) -> Result<PicStats, String> {
    let (w, h) = (c.w as usize, c.h as usize);
    let mut st = PicStats::default();
    let zz = zigzag();
    if j.comps.len() != planes.len() {
        return Err(format!("{} components, expected {}", j.comps.len(), planes.len()));
    }
    for (ci, comp) in j.comps.iter().enumerate() {
        let hs = j.hmax / comp.h;
        let vs = j.vmax / comp.v;
        let q: Vec<f64> = j.qt[comp.tq].unwrap().iter().map(|&x| x as f64).collect();
        let (nbx, nby) = if j.has_padding_blocks(ci) { (comp.sw, comp.sh) } else { (comp.bw, comp.bh) };
        let p = &planes[ci];
        for by in 0..nby {
            for bx in 0..nbx {
                let mut lo = [0f64; 64];
                let mut hi = [0f64; 64];
                let mut exact = true;
                let mut edge = false;
                for y in 0..8 {
                    for x in 0..8 {
                        let x0 = (bx * 8 + x) * hs;
                        let y0 = (by * 8 + y) * vs;
                        if x0 + hs > w || y0 + vs > h {
                            edge = true;
                        }
                        let (mut a, mut b) = (255u8, 0u8);
                        for yy in y0..y0 + vs {
                            let row = yy.min(h - 1) * w;
                            for xx in x0..x0 + hs {
                                let s = p[row + xx.min(w - 1)];
                                a = a.min(s);
                                b = b.max(s);
                            }
                        }
                        exact &= a == b;
                        lo[y * 8 + x] = a as f64 - 128.0;
                        hi[y * 8 + x] = b as f64 - 128.0;
                    }
                }
                let blk = j.block(ci, bx, by);
                if edge {
                    st.edge_blocks += 1;
                }
                if bx >= comp.bw || by >= comp.bh {
                    st.pad_blocks += 1;
                }
                if exact {
                    st.exact_blocks += 1;
                    st.exact_coefs += 64;
                    let f = dct::fdct(&lo);
                    for k in 0..64 {
                        let t = tol(q[k], f[zz[k]]);
                        let e = (blk[k] as f64 * q[k] - f[zz[k]]).abs();
                        let ex8 = (e - q[k] / 2.0) * 8.0;
                        if ex8 > st.max_excess8 {
                            st.max_excess8 = ex8;
                        }
                        if e / t > st.max_ratio {
                            st.max_ratio = e / t;
                        }
                        if q[k] == 1.0 && e > st.max_ratio_q1 {
                            st.max_ratio_q1 = e;
                        }
                        if e > t {
                            return Err(format!(
                                "component #{} block ({},{}) zig-zag {}: sent {} x {} = {}, the picture's coefficient is {:.3} (allowed difference {:.3})",
                                ci, bx, by, k, blk[k], q[k], blk[k] as f64 * q[k], f[zz[k]], t
                            ));
                        }
                    }
                } else {
                    st.box_blocks += 1;
                    st.box_coefs += 64;
                    // centre and radius of the box, coefficient intervals by |basis| * radius
                    let mut mid = [0f64; 64];
                    let mut rad = [0f64; 64];
                    for i in 0..64 {
                        mid[i] = (lo[i] + hi[i]) / 2.0;
                        rad[i] = (hi[i] - lo[i]) / 2.0;
                    }
                    let fm = dct::fdct(&mid);
                    let fr = dct::fdct_abs(&rad);
                    let mut v = [0f64; 64];
                    let mut bound2 = 0.0;
                    for k in 0..64 {
                        let z = zz[k];
                        v[z] = blk[k] as f64 * q[k];
                        let t = tol(q[k], fm[z].abs() + fr[z]);
                        bound2 += t * t;
                        if (v[z] - fm[z]).abs() > fr[z] + t {
                            return Err(format!(
                                "component #{} block ({},{}) zig-zag {}: sent {} x {} = {}, the cells allow {:.2}..{:.2}",
                                ci, bx, by, k, blk[k], q[k], v[z], fm[z] - fr[z], fm[z] + fr[z]
                            ));
                        }
                    }
                    let s = dct::idct(&v);
                    let mut d2 = 0.0;
                    for i in 0..64 {
                        let d = if s[i] < lo[i] {
                            lo[i] - s[i]
                        } else if s[i] > hi[i] {
                            s[i] - hi[i]
                        } else {
                            0.0
                        };
                        d2 += d * d;
                    }
                    if d2 > bound2 {
                        return Err(format!(
                            "component #{} block ({},{}): decoded samples leave the range of their cells (distance {:.2}, allowed {:.2})",
                            ci, bx, by, d2.sqrt(), bound2.sqrt()
                        ));
                    }
                    let r = (d2 / bound2).sqrt();
                    if r > st.max_ratio {
                        st.max_ratio = r;
                    }
                }
            }
        }
    }
    Ok(st)
}

/// Header facts the request determines (C02).
pub fn check_header(c: &Case, j: &Jpeg) -> Result<(), String> {
    if j.width != c.w as usize || j.height != c.h as usize {
        return Err(format!("frame header says {}x{}", j.width, j.height));
    }
    if j.precision != 8 {
        return Err(format!("precision {}", j.precision));
    }
    let want = if c.prog.is_some() { 0xC2 } else { 0xC0 };
    if j.sof != want {
        return Err(format!("frame type {:#x}, expected {:#x}", j.sof, want));
    }
    let f = c.comp_factors();
    let t = c.comp_tables();
    if j.comps.len() != f.len() {
        return Err(format!("{} components, expected {}", j.comps.len(), f.len()));
    }
    for (i, k) in j.comps.iter().enumerate() {
        if (k.h, k.v) != f[i] {
            return Err(format!("component #{} has factors {}x{}, expected {:?}", i, k.h, k.v, f[i]));
        }
    }
    // luma and chroma use different tables, in the right grouping
    for a in 0..f.len() {
        for b in 0..a {
            if (t[a] == t[b]) != (j.comps[a].tq == j.comps[b].tq) {
                return Err(format!("components #{} and #{}: wrong quantisation table grouping", a, b));
            }
        }
    }
    check_apps(c, &j.apps)
}

pub fn check_apps(c: &Case, apps: &[(u8, Vec<u8>)]) -> Result<(), String> {
    let first = apps.first().ok_or("no JFIF segment")?;
    if first.0 != 0 || first.1.len() < 14 || &first.1[0..5] != b"JFIF\0" {
        return Err("the first segment is not a JFIF APP0".into());
    }
    let d = &first.1;
    if d[5] != 1 {
        return Err(format!("JFIF major version {}", d[5]));
    }
    let dens = (d[7], (d[8] as u16) << 8 | d[9] as u16, (d[10] as u16) << 8 | d[11] as u16);
    let want = match c.dens {
        crate::case::Dens::None => (0, 1, 1),
        crate::case::Dens::Inch(x, y) => (1, x, y),
        crate::case::Dens::Cm(x, y) => (2, x, y),
    };
    if dens != want {
        return Err(format!("density {:?}, expected {:?}", dens, want));
    }
    if d[12] as usize * d[13] as usize * 3 + 14 != d.len() {
        return Err("JFIF thumbnail size does not match the segment length".into());
    }
    if (d[12] == 0) != (d[13] == 0) {
        return Err(format!("JFIF thumbnail of {}x{} samples", d[12], d[13]));
    }
    // our own segments never look like Adobe ones, so any Adobe segment is the encoder's
    let adobe: Vec<&Vec<u8>> = apps.iter().filter(|a| a.0 == 14 && a.1.starts_with(b"Adobe")).map(|a| &a.1).collect();
    let want = match c.ct {
        6 => Some(0u8),
        7 | 8 => Some(2u8),
        _ => None,
    };
    match (want, adobe.len()) {
        (None, 0) => {}
        (Some(t), 1) => {
            if adobe[0].len() != 12 {
                return Err(format!("Adobe segment of {} bytes", adobe[0].len()));
            }
            if adobe[0][11] != t {
                return Err(format!("Adobe transform {}, expected {}", adobe[0][11], t));
            }
        }
        (w, n) => return Err(format!("{} Adobe segments, expected transform {:?}", n, w)),
    }
    if apps.iter().filter(|a| a.0 == 0).count() != 1 {
        return Err("more than one APP0".into());
    }
    Ok(())
}
