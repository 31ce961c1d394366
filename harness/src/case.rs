//! A `Case` is one complete request to the encoder: picture + settings. It prints to / parses from one line so that
//! every execution can be replayed, and knows how to build its pixel data deterministically.
use crate::rng::Rng;
use jpeg_encoder::*;
use std::fmt;

pub const CTS: [(&str, ColorType); 9] = [
    ("Luma", ColorType::Luma),
    ("Rgb", ColorType::Rgb),
    ("Rgba", ColorType::Rgba),
    ("Bgr", ColorType::Bgr),
    ("Bgra", ColorType::Bgra),
    ("Ycbcr", ColorType::Ycbcr),
    ("Cmyk", ColorType::Cmyk),
    ("CmykAsYcck", ColorType::CmykAsYcck),
    ("Ycck", ColorType::Ycck),
];

/// (name, variant, h, v) - h/v from the documentation of the aliases, not from the code
pub const SFS: [(&str, SamplingFactor, usize, usize); 16] = [
    ("F_1_1", SamplingFactor::F_1_1, 1, 1),
    ("F_2_1", SamplingFactor::F_2_1, 2, 1),
    ("F_1_2", SamplingFactor::F_1_2, 1, 2),
    ("F_2_2", SamplingFactor::F_2_2, 2, 2),
    ("F_4_1", SamplingFactor::F_4_1, 4, 1),
    ("F_4_2", SamplingFactor::F_4_2, 4, 2),
    ("F_1_4", SamplingFactor::F_1_4, 1, 4),
    ("F_2_4", SamplingFactor::F_2_4, 2, 4),
    ("R_4_4_4", SamplingFactor::R_4_4_4, 1, 1),
    ("R_4_4_0", SamplingFactor::R_4_4_0, 1, 2),
    ("R_4_4_1", SamplingFactor::R_4_4_1, 1, 4),
    ("R_4_2_2", SamplingFactor::R_4_2_2, 2, 1),
    ("R_4_2_0", SamplingFactor::R_4_2_0, 2, 2),
    ("R_4_2_1", SamplingFactor::R_4_2_1, 2, 4),
    ("R_4_1_1", SamplingFactor::R_4_1_1, 4, 1),
    ("R_4_1_0", SamplingFactor::R_4_1_0, 4, 2),
];

pub const NIMG: u8 = 17;

/// kinds of custom tables
pub const NQT: u64 = 14;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Qt {
    /// index into the nine presets
    Preset(u8),
    /// kind, seed
    Custom(u8, u64),
}

impl Qt {
    pub fn table(self) -> Option<[u16; 64]> {
        match self {
            Qt::Preset(_) => None,
            // tables with a meaning: the presets themselves, scaled by a quality, in zig-zag order, for the other side
            Qt::Custom(kind @ 11..=13, seed) => {
                let n = (seed % 18) as usize;
                let mut t = if n < 9 { crate::qtables::LUMA[n] } else { crate::qtables::CHROMA[n - 9] };
                if kind == 12 {
                    t = crate::c_tables::expected_table(Qt::Preset((n % 9) as u8), (seed / 18 % 100 + 1) as u8, n < 9);
                } else if kind == 13 {
                    let z = crate::jpeg::zigzag();
                    let u = t;
                    for k in 0..64 {
                        t[k] = u[z[k]];
                    }
                }
                Some(t)
            }
            Qt::Custom(kind, seed) => {
                let mut r = Rng::derive(seed, "qt", kind as u64);
                let mut t = [1u16; 64];
                for (i, v) in t.iter_mut().enumerate() {
                    *v = match kind {
                        0 => 1,
                        1 => r.range(1, 255) as u16,
                        2 => r.range(1, 8) as u16,
                        3 => *r.pick(&[0u16, 1, 2, 254, 255, 256, 257, 511, 512, 2047, 2048, 2049, 32767, 32768, 65535]),
                        4 => r.next() as u16,
                        5 => (i + 1) as u16,
                        6 => 255,
                        7 => 16,
                        8 => (seed % 65536) as u16,
                        9 => 100,
                        _ => {
                            if i == (seed % 64) as usize {
                                ((seed / 64) % 65536) as u16
                            } else {
                                1 + i as u16
                            }
                        }
                    };
                }
                Some(t)
            }
        }
    }
    pub fn build(self) -> QuantizationTableType {
        use QuantizationTableType::*;
        match self {
            Qt::Preset(0) => Default,
            Qt::Preset(1) => Flat,
            Qt::Preset(2) => CustomMsSsim,
            Qt::Preset(3) => CustomPsnrHvs,
            Qt::Preset(4) => ImageMagick,
            Qt::Preset(5) => KleinSilversteinCarney,
            Qt::Preset(6) => DentalXRays,
            Qt::Preset(7) => VisualDetectionModel,
            Qt::Preset(_) => ImprovedDetectionModel,
            c => Custom(Box::new(c.table().unwrap())),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dens {
    None,
    Inch(u16, u16),
    Cm(u16, u16),
}

impl Dens {
    pub fn build(self) -> Density {
        match self {
            Dens::None => Density::None,
            Dens::Inch(x, y) => Density::Inch { x, y },
            Dens::Cm(x, y) => Density::Centimeter { x, y },
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub ct: u8,
    pub w: u16,
    pub h: u16,
    pub q: u8,
    /// index into SFS, None = leave the default
    pub sf: Option<u8>,
    pub prog: Option<u8>,
    pub opt: bool,
    pub ri: u16,
    pub dens: Dens,
    pub qt: [Qt; 2],
    /// (number, length, content seed)
    pub app: Vec<(u8, usize, u64)>,
    pub icc: Option<(usize, u64)>,
    pub img: u8,
    pub seed: u64,
    /// through a custom ImageBuffer instead of bytes
    pub buf: bool,
    /// surplus bytes after the image data
    pub extra: usize,
}

impl Default for Case {
    fn default() -> Case {
        Case {
            ct: 1,
            w: 8,
            h: 8,
            q: 80,
            sf: None,
            prog: None,
            opt: false,
            ri: 0,
            dens: Dens::None,
            qt: [Qt::Preset(0); 2],
            app: vec![],
            icc: None,
            img: 0,
            seed: 1,
            buf: false,
            extra: 0,
        }
    }
}

impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "ct={} w={} h={} q={}", CTS[self.ct as usize].0, self.w, self.h, self.q)?;
        if let Some(s) = self.sf {
            write!(f, " sf={}", SFS[s as usize].0)?;
        }
        if let Some(p) = self.prog {
            write!(f, " prog={}", p)?;
        }
        if self.opt {
            write!(f, " opt=1")?;
        }
        if self.ri > 0 {
            write!(f, " ri={}", self.ri)?;
        }
        match self.dens {
            Dens::None => {}
            Dens::Inch(x, y) => write!(f, " dens=i,{},{}", x, y)?,
            Dens::Cm(x, y) => write!(f, " dens=c,{},{}", x, y)?,
        }
        for (i, q) in self.qt.iter().enumerate() {
            match q {
                Qt::Preset(0) => {}
                Qt::Preset(p) => write!(f, " qt{}={}", i, p)?,
                Qt::Custom(k, s) => write!(f, " qt{}=c{},{}", i, k, s)?,
            }
        }
        for a in &self.app {
            write!(f, " app={},{},{}", a.0, a.1, a.2)?;
        }
        if let Some((l, s)) = self.icc {
            write!(f, " icc={},{}", l, s)?;
        }
        write!(f, " img={} seed={}", self.img, self.seed)?;
        if self.buf {
            write!(f, " buf=1")?;
        }
        if self.extra > 0 {
            write!(f, " extra={}", self.extra)?;
        }
        Ok(())
    }
}

impl Case {
    pub fn parse(s: &str) -> Option<Case> {
        let mut c = Case::default();
        for t in s.split_whitespace() {
            let (k, v) = t.split_once('=')?;
            let nums = || -> Option<Vec<u64>> { v.split(',').map(|x| x.parse().ok()).collect() };
            match k {
                "ct" => c.ct = CTS.iter().position(|x| x.0 == v)? as u8,
                "w" => c.w = v.parse().ok()?,
                "h" => c.h = v.parse().ok()?,
                "q" => c.q = v.parse().ok()?,
                "sf" => c.sf = Some(SFS.iter().position(|x| x.0 == v)? as u8),
                "prog" => c.prog = Some(v.parse().ok()?),
                "opt" => c.opt = v == "1",
                "ri" => c.ri = v.parse().ok()?,
                "dens" => {
                    let p: Vec<&str> = v.split(',').collect();
                    let (x, y) = (p.get(1)?.parse().ok()?, p.get(2)?.parse().ok()?);
                    c.dens = if p[0] == "i" { Dens::Inch(x, y) } else { Dens::Cm(x, y) };
                }
                "qt0" | "qt1" => {
                    let i = (k == "qt1") as usize;
                    c.qt[i] = if let Some(r) = v.strip_prefix('c') {
                        let (a, b) = r.split_once(',')?;
                        Qt::Custom(a.parse().ok()?, b.parse().ok()?)
                    } else {
                        Qt::Preset(v.parse().ok()?)
                    };
                }
                "app" => {
                    let n = nums()?;
                    c.app.push((n[0] as u8, n[1] as usize, n[2]));
                }
                "icc" => {
                    let n = nums()?;
                    c.icc = Some((n[0] as usize, n[1]));
                }
                "img" => c.img = v.parse().ok()?,
                "seed" => c.seed = v.parse().ok()?,
                "buf" => c.buf = v == "1",
                "extra" => c.extra = v.parse().ok()?,
                _ => return None,
            }
        }
        Some(c)
    }
    pub fn color(&self) -> ColorType {
        CTS[self.ct as usize].1
    }
    /// bytes per pixel of the input layout
    pub fn bpp(&self) -> usize {
        [1, 3, 4, 3, 4, 3, 4, 4, 4][self.ct as usize]
    }
    pub fn ncomp(&self) -> usize {
        [1, 3, 3, 3, 3, 3, 4, 4, 4][self.ct as usize]
    }
    pub fn jpeg_color(&self) -> JpegColorType {
        match self.ct {
            0 => JpegColorType::Luma,
            6 => JpegColorType::Cmyk,
            7 | 8 => JpegColorType::Ycck,
            _ => JpegColorType::Ycbcr,
        }
    }
    /// requested factors incl. the documented default
    pub fn factors(&self) -> (usize, usize) {
        match self.sf {
            Some(s) => (SFS[s as usize].2, SFS[s as usize].3),
            None if self.q < 90 => (2, 2),
            None => (1, 1),
        }
    }
    /// expected sampling factor of every component
    pub fn comp_factors(&self) -> Vec<(usize, usize)> {
        let f = self.factors();
        match self.ct {
            0 => vec![(1, 1)],
            6 => vec![(1, 1), (1, 1), (1, 1), f],
            7 | 8 => vec![f, (1, 1), (1, 1), f],
            _ => vec![f, (1, 1), (1, 1)],
        }
    }
    /// expected quantisation side (0 luma, 1 chroma) of every component
    pub fn comp_tables(&self) -> Vec<usize> {
        match self.ct {
            0 => vec![0],
            6 => vec![1, 1, 1, 0],
            7 | 8 => vec![0, 1, 1, 0],
            _ => vec![0, 1, 1],
        }
    }
    pub fn npix(&self) -> usize {
        self.w as usize * self.h as usize
    }
    /// Input bytes in the layout of `ct`, followed by `extra` surplus bytes. Capacity == length.
    pub fn pixels(&self) -> Vec<u8> {
        let n = self.bpp();
        let mut v = vec![0u8; self.npix() * n];
        paint(&mut v, self.w as usize, self.h as usize, n, self.img, self.seed, self.factors());
        if self.extra > 0 {
            v.reserve_exact(self.extra);
            let mut r = Rng::derive(self.seed, "extra", 0);
            for _ in 0..self.extra {
                v.push(r.u8());
            }
        }
        v
    }
    pub fn app_data(a: &(u8, usize, u64)) -> Vec<u8> {
        let mut v = vec![0u8; a.1];
        Rng::derive(a.2, "app", a.0 as u64).fill(&mut v);
        v
    }
    pub fn icc_data(i: &(usize, u64)) -> Vec<u8> {
        let mut v = vec![0u8; i.0];
        Rng::derive(i.1, "icc", 0).fill(&mut v);
        v
    }
    /// Apply all settings.
    pub fn configure<W: JfifWrite>(&self, e: &mut Encoder<W>) -> Result<(), EncodingError> {
        if self.dens != Dens::None {
            e.set_density(self.dens.build());
        }
        if let Some(s) = self.sf {
            e.set_sampling_factor(SFS[s as usize].1);
        }
        if self.qt != [Qt::Preset(0); 2] {
            e.set_quantization_tables(self.qt[0].build(), self.qt[1].build());
        }
        if let Some(p) = self.prog {
            if p == 4 && self.seed & 1 == 0 {
                e.set_progressive(true);
            } else {
                e.set_progressive_scans(p);
            }
        }
        if self.ri > 0 {
            e.set_restart_interval(self.ri);
        }
        if self.opt {
            e.set_optimized_huffman_tables(true);
        }
        for a in &self.app {
            e.add_app_segment(a.0, &Case::app_data(a))?;
        }
        if let Some(i) = &self.icc {
            e.add_icc_profile(&Case::icc_data(i))?;
        }
        Ok(())
    }
    pub fn encode_to<W: DstT>(&self, mut w: W, px: &[u8]) -> Result<(), EncodingError> {
        let mut e = Encoder::new(&mut w as Dst, self.q);
        self.configure(&mut e)?;
        if self.buf {
            e.encode_image(By(&PlaneImage { case: self, planes: planes(self, px), w: self.w, h: self.h }))
        } else {
            e.encode(px, self.w, self.h, self.color())
        }
    }
    pub fn encode_px(&self, px: &[u8]) -> Result<Vec<u8>, EncodingError> {
        let mut out = Vec::new();
        self.encode_to(&mut out, px)?;
        Ok(out)
    }
    pub fn encode(&self) -> Result<Vec<u8>, EncodingError> {
        self.encode_px(&self.pixels())
    }
    /// expected number of MCUs of the scan with all components / of component c alone
    pub fn blocks(&self, c: usize) -> (usize, usize) {
        let f = self.comp_factors();
        let hm = f.iter().map(|x| x.0).max().unwrap();
        let vm = f.iter().map(|x| x.1).max().unwrap();
        let (h, v) = f[c];
        (
            (self.w as usize * h).div_ceil(hm).div_ceil(8),
            (self.h as usize * v).div_ceil(vm).div_ceil(8),
        )
    }
    pub fn mcus_interleaved(&self) -> usize {
        let f = self.comp_factors();
        let hm = f.iter().map(|x| x.0).max().unwrap();
        let vm = f.iter().map(|x| x.1).max().unwrap();
        (self.w as usize).div_ceil(8 * hm) * (self.h as usize).div_ceil(8 * vm)
    }
}

#[cfg(not(feature = "std"))]
pub use jpeg_encoder::JfifWrite as DstT;
#[cfg(feature = "std")]
pub use std::io::Write as DstT;
/// One destination type and one source type for nearly everything: the encoder is generic, and every pair costs
/// seconds of compile time.
pub type Dst<'a> = &'a mut dyn DstT;
pub struct By<'a>(pub &'a dyn ImageBuffer);
impl<'a> ImageBuffer for By<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.0.get_jpeg_color_type()
    }
    fn width(&self) -> u16 {
        self.0.width()
    }
    fn height(&self) -> u16 {
        self.0.height()
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        self.0.fill_buffers(y, buffers)
    }
}

/// Component planes (full resolution) the encoder should see for the given input bytes, by independent reading of
/// the layout and the crate's public conversion functions (whose values C17 checks exhaustively).
pub fn planes(c: &Case, px: &[u8]) -> Vec<Vec<u8>> {
    let n = c.npix();
    let mut p: Vec<Vec<u8>> = (0..c.ncomp()).map(|_| Vec::with_capacity(n)).collect();
    let b = c.bpp();
    for i in 0..n {
        let s = &px[i * b..i * b + b];
        match c.ct {
            0 => p[0].push(s[0]),
            1 | 2 => {
                let (y, cb, cr) = rgb_to_ycbcr(s[0], s[1], s[2]);
                p[0].push(y);
                p[1].push(cb);
                p[2].push(cr);
            }
            3 | 4 => {
                let (y, cb, cr) = rgb_to_ycbcr(s[2], s[1], s[0]);
                p[0].push(y);
                p[1].push(cb);
                p[2].push(cr);
            }
            5 => {
                for k in 0..3 {
                    p[k].push(s[k]);
                }
            }
            6 => {
                for k in 0..4 {
                    p[k].push(255 - s[k]);
                }
            }
            7 => {
                let (y, cb, cr, k) = cmyk_to_ycck(s[0], s[1], s[2], s[3]);
                p[0].push(y);
                p[1].push(cb);
                p[2].push(cr);
                p[3].push(k);
            }
            _ => {
                for k in 0..4 {
                    p[k].push(s[k]);
                }
            }
        }
    }
    p
}

/// A custom image source backed by component planes.
pub struct PlaneImage<'a> {
    pub case: &'a Case,
    pub planes: Vec<Vec<u8>>,
    pub w: u16,
    pub h: u16,
}

impl<'a> ImageBuffer for PlaneImage<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        self.case.jpeg_color()
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let w = self.w as usize;
        for (k, p) in self.planes.iter().enumerate() {
            buffers[k].extend_from_slice(&p[y as usize * w..(y as usize + 1) * w]);
        }
    }
}

/// Deterministic picture content. n = bytes per pixel.
pub fn paint(v: &mut [u8], w: usize, h: usize, n: usize, kind: u8, seed: u64, cell: (usize, usize)) {
    let mut r = Rng::derive(seed, "img", kind as u64);
    let clamp = |x: i64| x.clamp(0, 255) as u8;
    match kind {
        0 => r.fill(v),
        1 => {
            r.fill(v);
            for x in v.iter_mut() {
                *x = if *x & 1 == 1 { 255 } else { 0 };
            }
        }
        2 => {
            let a: Vec<(i64, i64, i64)> = (0..n).map(|_| (r.range(-512, 512), r.range(-512, 512), r.range(0, 255))).collect();
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        v[(y * w + x) * n + k] = clamp(a[k].2 + (a[k].0 * x as i64 + a[k].1 * y as i64) / 256);
                    }
                }
            }
        }
        3 => {
            let c: Vec<u8> = (0..n).map(|_| r.u8()).collect();
            for (i, x) in v.iter_mut().enumerate() {
                *x = c[i % n];
            }
        }
        4 => {
            let s = *r.pick(&[1usize, 1, 2, 3, 4, 8, 16]);
            let (a, b) = if r.chance(1, 2) { (0, 255) } else { (r.u8(), r.u8()) };
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        v[(y * w + x) * n + k] = if (x / s + y / s + k) & 1 == 0 { a } else { b };
                    }
                }
            }
        }
        5 => {
            let amp = r.range(1, 12);
            let f = (r.range(1, 40) as f64 / 100.0, r.range(1, 40) as f64 / 100.0);
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        let b = 128.0 + 100.0 * (f.0 * x as f64 + k as f64).sin() * (f.1 * y as f64).cos();
                        v[(y * w + x) * n + k] = clamp(b as i64 + r.range(-amp, amp));
                    }
                }
            }
        }
        6 => {
            let base = r.u8();
            for x in v.iter_mut() {
                *x = if r.chance(1, 40) { r.u8() } else { base };
            }
        }
        // saturated DCT basis functions, one per block and channel: the largest coefficients possible
        7 => {
            let bw = w.div_ceil(8);
            let bh = h.div_ceil(8);
            for by in 0..bh {
                for bx in 0..bw {
                    for k in 0..n {
                        let (u, t) = (r.below(8) as f64, r.below(8) as f64);
                        let neg = r.chance(1, 2);
                        for y in by * 8..(by * 8 + 8).min(h) {
                            for x in bx * 8..(bx * 8 + 8).min(w) {
                                let c = ((2 * (x % 8) + 1) as f64 * u * std::f64::consts::PI / 16.0).cos()
                                    * ((2 * (y % 8) + 1) as f64 * t * std::f64::consts::PI / 16.0).cos();
                                v[(y * w + x) * n + k] = if (c > 0.0) != neg { 255 } else { 0 };
                            }
                        }
                    }
                }
            }
        }
        // constant blocks
        8 | 10 => {
            let bw = w.div_ceil(8);
            let cols: Vec<u8> = (0..bw * h.div_ceil(8) * n)
                .map(|_| {
                    let x = r.u8();
                    if kind == 8 {
                        x
                    } else if x & 1 == 1 {
                        255
                    } else {
                        0
                    }
                })
                .collect();
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        v[(y * w + x) * n + k] = cols[((y / 8) * bw + x / 8) * n + k];
                    }
                }
            }
        }
        9 => {
            let vert = r.chance(1, 2);
            let p = r.range(1, 5) as usize;
            for y in 0..h {
                for x in 0..w {
                    let t = if vert { x } else { y };
                    for k in 0..n {
                        v[(y * w + x) * n + k] = if (t / p) & 1 == 0 { 250 - k as u8 } else { 3 + k as u8 };
                    }
                }
            }
        }
        // constant inside every subsampling cell, otherwise noise
        11 => {
            let (ch, cv) = cell;
            let cw = w.div_ceil(ch);
            let mut cells = vec![0u8; cw * h.div_ceil(cv) * n];
            r.fill(&mut cells);
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        v[(y * w + x) * n + k] = cells[((y / cv) * cw + x / ch) * n + k];
                    }
                }
            }
        }
        // as 11 but smooth-ish with extremes
        12 => {
            let (ch, cv) = cell;
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        let (cx, cy) = (x / ch, y / cv);
                        v[(y * w + x) * n + k] = ((cx * (5 + k) + cy * (9 - k)) % 256) as u8;
                    }
                }
            }
        }
        // wide range of run lengths: few random high-frequency coefficients on flat blocks
        13 => {
            let bw = w.div_ceil(8);
            for by in 0..h.div_ceil(8) {
                for bx in 0..bw {
                    for k in 0..n {
                        let mut c = [(0f64, 0f64, 0f64); 3];
                        for e in c.iter_mut() {
                            *e = (r.below(8) as f64, r.below(8) as f64, r.range(-60, 60) as f64);
                        }
                        let base = r.range(60, 190) as f64;
                        for y in by * 8..(by * 8 + 8).min(h) {
                            for x in bx * 8..(bx * 8 + 8).min(w) {
                                let mut s = base;
                                for e in &c {
                                    s += e.2
                                        * ((2 * (x % 8) + 1) as f64 * e.0 * std::f64::consts::PI / 16.0).cos()
                                        * ((2 * (y % 8) + 1) as f64 * e.1 * std::f64::consts::PI / 16.0).cos();
                                }
                                v[(y * w + x) * n + k] = clamp(s.round() as i64);
                            }
                        }
                    }
                }
            }
        }
        // structured pictures: something a shortcut could look for
        15 | 16 => {
            let base = *r.pick(&[0u8, 1, 2, 5, 11, 13]);
            paint(v, w, h, n, base, r.next() >> 24, cell);
            let m = if kind == 15 { r.below(7) } else { 7 + r.below(7) };
            let full = r.u8();
            let at = |x: usize, y: usize, k: usize| (y * w + x) * n + k;
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        let i = at(x, y, k);
                        v[i] = match m {
                            // grey, whatever the channels mean; grey but for the last channel
                            0 => v[at(x, y, 0)],
                            1 if k < 3 => v[at(x, y, 0)],
                            // one channel constant at an end of the range or elsewhere
                            2 if k == n - 1 => 255,
                            3 if k == n - 1 => 0,
                            4 if k < n - 1 => 0,
                            5 if k < n - 1 => 255,
                            6 if k == full as usize % n => full,
                            // repetitions
                            7 => v[at(x, 0, k)],
                            8 => v[at(0, y, k)],
                            9 => v[at(x.min(w - 1 - x), y, k)],
                            10 => v[at(x, y.min(h - 1 - y), k)],
                            11 => v[at(x, y % 8, k)],
                            // of one colour but for the last pixel, the first, or a margin
                            12 if x + 1 < w || y + 1 < h => full,
                            13 if x + 8 < w && y + 8 < h => full,
                            _ => v[i],
                        };
                    }
                }
            }
        }
        // per-pixel position code: every sample distinct from its neighbours
        _ => {
            for y in 0..h {
                for x in 0..w {
                    for k in 0..n {
                        v[(y * w + x) * n + k] = (x.wrapping_mul(37) ^ y.wrapping_mul(101) ^ (k * 59) ^ (seed as usize & 0xFF)) as u8;
                    }
                }
            }
        }
    }
}

/// Random settings over the whole configuration space. `maxpix` bounds the picture.
pub fn random_case(r: &mut Rng, maxpix: usize) -> Case {
    let mut c = Case { ct: r.below(9) as u8, ..Case::default() };
    let (w, h) = random_size(r, maxpix);
    c.w = w;
    c.h = h;
    c.q = match r.below(10) {
        0 => *r.pick(&[0u8, 1, 2, 49, 50, 51, 89, 90, 91, 99, 100, 101, 255]),
        1 => r.u8(),
        2..=4 => 100,
        _ => r.range(1, 100) as u8,
    };
    c.sf = if r.chance(1, 5) { None } else { Some(r.below(16) as u8) };
    c.prog = match r.below(6) {
        0 => Some(4),
        1 => Some(r.range(2, 64) as u8),
        2 => Some(*r.pick(&[2u8, 3, 5, 22, 32, 33, 34, 35, 63, 64])),
        _ => None,
    };
    c.opt = r.chance(2, 5);
    c.ri = if r.chance(1, 2) {
        0
    } else {
        match r.below(5) {
            0 => *r.pick(&[1u16, 2, 3, 7, 8, 9, 16, 255, 256, 257, 65535]),
            1 => r.range(1, 65535) as u16,
            _ => r.range(1, 12) as u16,
        }
    };
    if r.chance(1, 4) {
        let (x, y) = (r.next() as u16, r.next() as u16);
        c.dens = if r.chance(1, 2) { Dens::Inch(x, y) } else { Dens::Cm(x, y) };
    }
    for i in 0..2 {
        c.qt[i] = match r.below(6) {
            0 => Qt::Preset(r.below(9) as u8),
            1 => Qt::Custom(r.below(NQT) as u8, r.next() >> 32),
            _ => Qt::Preset(0),
        };
    }
    if r.chance(1, 8) {
        c.qt[1] = c.qt[0];
    }
    c.img = r.below(NIMG as u64) as u8;
    c.seed = r.next() >> 24;
    c.buf = r.chance(1, 6);
    if r.chance(1, 12) {
        for _ in 0..r.range(1, 4) {
            c.app.push((r.range(1, 15) as u8, r.below(300) as usize, r.next() >> 40));
        }
    }
    if r.chance(1, 20) {
        c.icc = Some((r.below(1500) as usize, r.next() >> 40));
    }
    if !c.buf && r.chance(1, 8) {
        c.extra = r.range(1, 40) as usize;
    }
    c
}

/// more than 65535 blocks (often MCUs too), in each of the five modes in turn, few enough bytes to be checked in full
pub fn big_case(r: &mut Rng, i: u64) -> Case {
    let mut c = random_case(r, 64);
    c.app.clear();
    c.icc = None;
    c.ct = *r.pick(&[0u8, 0, 0, 1, 5, 2, 7]);
    let mode = i % 5;
    c.sf = Some(match mode {
        0 => *r.pick(&[0u8, 0, 1, 2, 3]),
        1 => *r.pick(&[4u8, 5, 6, 7]),
        _ => r.below(8) as u8,
    });
    c.opt = mode == 2 || mode == 4;
    c.prog = if mode >= 3 { Some(*r.pick(&[2u8, 3, 4, 4, 5, 8, 12])) } else { None };
    // 8-blocks of the whole picture; interleaved pictures with 2x2 get more than 65535 MCUs now and then
    let blocks = if mode == 0 && r.chance(1, 6) { 266_000 } else { 65_536 + r.below(6000) };
    let cols = match r.below(4) {
        0 => r.range(200, 320),
        1 => r.range(9, 60),
        2 => 8190 + r.below(3) as i64,
        _ => r.range(600, 4000),
    }
    .clamp(blocks as i64 / 8191 + 1, 8192) as u64;
    let rows = (blocks / cols + 1).min(8191);
    let fit = |n: u64, r: &mut Rng| (n * 8 - r.below(8)).min(65535) as u16;
    (c.w, c.h) = (fit(cols, r), fit(rows, r));
    if r.chance(1, 2) {
        std::mem::swap(&mut c.w, &mut c.h);
    }
    c.ri = match r.below(8) {
        0 => 0,
        1 => *r.pick(&[1u16, 2, 3, 7, 8, 255, 256, 257]),
        2 => 65535 - r.below(3) as u16,
        3 => *r.pick(&[32767u16, 32768, 32769, 16384, 40000]),
        _ => r.range(900, 65535) as u16,
    };
    c
}

pub fn random_size(r: &mut Rng, maxpix: usize) -> (u16, u16) {
    // now and then a long strip, some of them far beyond the number of pixels asked for
    if maxpix >= 2000 && r.chance(1, 24) {
        let cap = if r.chance(1, 5) { 65535 } else { maxpix.min(65535) as u64 };
        let bits = r.range(9, 64 - cap.leading_zeros() as i64);
        let a = match r.below(4) {
            0 => (1u64 << bits) - 1 + r.below(3),
            1 => cap - r.below(40),
            _ => r.range(1 << (bits - 1), 1 << bits) as u64,
        }
        .clamp(1, cap);
        let b = 1 + r.below((maxpix as u64 / a).clamp(1, 200));
        return if r.chance(1, 2) { (a as u16, b as u16) } else { (b as u16, a as u16) };
    }
    let pick = |r: &mut Rng, lim: usize| -> usize {
        let lim = lim.clamp(1, 65535);
        let v = match r.below(5) {
            0 => r.range(1, 20) as usize,
            1 => r.range(1, 70) as usize,
            2 => {
                let m = *r.pick(&[8usize, 16, 32]);
                (m * r.range(1, 8) as usize).saturating_add_signed(r.range(-1, 1) as isize)
            }
            3 => r.range(1, 260) as usize,
            _ => *r.pick(&[1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
        };
        v.clamp(1, lim)
    };
    let w = pick(r, maxpix);
    let h = pick(r, maxpix / w.max(1));
    if r.chance(1, 2) {
        (w as u16, h as u16)
    } else {
        (h as u16, w as u16)
    }
}
