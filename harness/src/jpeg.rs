//! Strict T.81 stream monitor: parses a JPEG byte stream, decodes every coefficient and records an event trace.
//! Independent of the encoder under test: shares no code and no table with it. Anything the standard does not
//! allow for an 8-bit baseline (SOF0) or progressive (SOF2) Huffman image is an error.

/// zig-zag index -> natural index, generated (not copied)
pub fn zigzag() -> [usize; 64] {
    let mut z = [0usize; 64];
    let (mut x, mut y, mut up) = (0i32, 0i32, true);
    for slot in z.iter_mut() {
        *slot = (y * 8 + x) as usize;
        if up {
            if x == 7 {
                y += 1;
                up = false;
            } else if y == 0 {
                x += 1;
                up = false;
            } else {
                x += 1;
                y -= 1;
            }
        } else if y == 7 {
            x += 1;
            up = true;
        } else if x == 0 {
            y += 1;
            up = true;
        } else {
            x -= 1;
            y += 1;
        }
    }
    z
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// real blocks (non-interleaved dimensions)
    pub bw: usize,
    pub bh: usize,
    /// blocks stored per row / column, incl. interleave padding
    pub sw: usize,
    pub sh: usize,
}

#[derive(Clone, Debug)]
pub struct Dht {
    pub class: u8,
    pub id: u8,
    pub lengths: [u8; 16],
    pub values: Vec<u8>,
    pub code_len: [u8; 256],
    pub freq: Vec<u64>,
    fast: Vec<(u8, u8)>,
    mincode: [i32; 17],
    maxcode: [i32; 17],
    valptr: [usize; 17],
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: u8,
    pub se: u8,
    pub mcus: usize,
    pub restarts: usize,
    pub dri: usize,
    /// entropy-coded bits without padding and stuffing
    pub bits: u64,
    pub pad_bits: u64,
    pub stuffed: u64,
    /// byte range of the entropy-coded segment
    pub start: usize,
    pub end: usize,
    /// byte offsets (of the 0xFF) of the RST markers
    pub rst_at: Vec<usize>,
    /// indices into `Jpeg::dhts` of the tables used (dc, ac) per component
    pub tables: Vec<(Option<usize>, Option<usize>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Jpeg {
    /// marker sequence (second byte), excluding RST and EOI-internal
    pub order: Vec<u8>,
    pub apps: Vec<(u8, Vec<u8>)>,
    pub sof: u8,
    pub precision: u8,
    pub width: usize,
    pub height: usize,
    pub hmax: usize,
    pub vmax: usize,
    pub comps: Vec<Comp>,
    pub qt: [Option<[u16; 64]>; 4],
    pub qt_count: usize,
    pub dhts: Vec<Dht>,
    pub dris: Vec<usize>,
    pub scans: Vec<Scan>,
    /// per component, sw*sh blocks, zig-zag order
    pub coefs: Vec<Vec<[i16; 64]>>,
    pub fill_bytes: usize,
    pub max_abs_dc: i32,
    pub max_abs_ac: i32,
    pub nonzero_ac: u64,
    pub blocks: u64,
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    acc: u64,
    n: u32,
    consumed: u64,
    stuffed: u64,
    /// number of real bits loaded
    marker: bool,
}

impl<'a> Bits<'a> {
    fn new(d: &'a [u8], pos: usize) -> Self {
        Bits { d, pos, acc: 0, n: 0, consumed: 0, stuffed: 0, marker: false }
    }
    fn fill(&mut self) {
        while self.n <= 48 && !self.marker {
            if self.pos >= self.d.len() {
                self.marker = true;
                return;
            }
            let b = self.d[self.pos];
            if b == 0xFF {
                match self.d.get(self.pos + 1) {
                    Some(0) => {
                        self.stuffed += 1;
                        self.pos += 2;
                    }
                    _ => {
                        self.marker = true;
                        return;
                    }
                }
            } else {
                self.pos += 1;
            }
            self.acc = (self.acc << 8) | b as u64;
            self.n += 8;
        }
    }
    #[inline]
    fn peek16(&mut self) -> (u32, u32) {
        if self.n < 16 {
            self.fill();
        }
        let avail = self.n.min(16);
        let v = if self.n >= 16 {
            (self.acc >> (self.n - 16)) & 0xFFFF
        } else {
            (self.acc << (16 - self.n)) & 0xFFFF
        };
        (v as u32, avail)
    }
    #[inline]
    fn skip(&mut self, k: u32) {
        self.n -= k;
        self.consumed += k as u64;
    }
    #[inline]
    fn get(&mut self, k: u32) -> Result<u32, String> {
        if k == 0 {
            return Ok(0);
        }
        if self.n < k {
            self.fill();
        }
        if self.n < k {
            return Err(format!("entropy data ends early at byte {}", self.pos));
        }
        let v = (self.acc >> (self.n - k)) & ((1u64 << k) - 1);
        self.n -= k;
        self.consumed += k as u64;
        Ok(v as u32)
    }
    /// End of an entropy-coded segment: fewer than 8 bits, all ones, then a marker.
    fn finish(&mut self) -> Result<u32, String> {
        self.fill();
        if !self.marker {
            return Err(format!("surplus entropy-coded data before byte {}", self.pos));
        }
        if self.n >= 8 {
            return Err(format!("{} surplus bits at end of entropy-coded segment (byte {})", self.n, self.pos));
        }
        let pad = self.n;
        if pad > 0 {
            let v = self.acc & ((1 << pad) - 1);
            if v != (1 << pad) - 1 {
                return Err(format!("padding bits are not all ones before byte {}", self.pos));
            }
        }
        self.acc = 0;
        self.n = 0;
        self.marker = false;
        Ok(pad)
    }
}

impl Dht {
    fn build(class: u8, id: u8, lengths: [u8; 16], values: Vec<u8>) -> Result<Dht, String> {
        let mut d = Dht {
            class,
            id,
            lengths,
            values,
            code_len: [0; 256],
            freq: vec![0; 256],
            fast: vec![(0, 0); 512],
            mincode: [0; 17],
            maxcode: [-1; 17],
            valptr: [0; 17],
        };
        let mut code: u32 = 0;
        let mut k = 0usize;
        for l in 1..=16usize {
            d.valptr[l] = k;
            d.mincode[l] = code as i32;
            for _ in 0..d.lengths[l - 1] {
                if code >= (1u32 << l) - 1 {
                    // either over-subscribed or the forbidden all-ones code
                    return Err(format!(
                        "DHT class {} id {}: code of length {} is over-subscribed or all ones",
                        class, id, l
                    ));
                }
                let v = d.values[k];
                if d.code_len[v as usize] != 0 {
                    return Err(format!("DHT class {} id {}: symbol {:#x} listed twice", class, id, v));
                }
                d.code_len[v as usize] = l as u8;
                if l <= 9 {
                    let lo = (code << (9 - l)) as usize;
                    for e in &mut d.fast[lo..lo + (1 << (9 - l))] {
                        *e = (l as u8, v);
                    }
                }
                code += 1;
                k += 1;
            }
            if d.lengths[l - 1] > 0 {
                d.maxcode[l] = code as i32 - 1;
            }
            code <<= 1;
        }
        if k == 0 {
            return Err(format!("DHT class {} id {}: empty table", class, id));
        }
        Ok(d)
    }
    #[inline]
    fn decode(&mut self, b: &mut Bits) -> Result<u8, String> {
        let (v, avail) = b.peek16();
        let (l, s) = self.fast[(v >> 7) as usize];
        if l > 0 && l as u32 <= avail {
            b.skip(l as u32);
            self.freq[s as usize] += 1;
            return Ok(s);
        }
        for l in 1..=16usize {
            if l as u32 > avail {
                break;
            }
            let c = (v >> (16 - l)) as i32;
            if self.maxcode[l] >= 0 && c <= self.maxcode[l] && c >= self.mincode[l] {
                let s = self.values[self.valptr[l] + (c - self.mincode[l]) as usize];
                b.skip(l as u32);
                self.freq[s as usize] += 1;
                return Ok(s);
            }
        }
        if avail < 16 {
            Err(format!("entropy data ends inside a code before byte {}", b.pos))
        } else {
            Err(format!("undefined Huffman code near byte {}", b.pos))
        }
    }
}

fn extend(v: u32, s: u32) -> i32 {
    if s == 0 {
        0
    } else if v < (1 << (s - 1)) {
        v as i32 - (1 << s) + 1
    } else {
        v as i32
    }
}

fn ceil(a: usize, b: usize) -> usize {
    a.div_ceil(b)
}

/// Parse and decode a complete stream.
pub fn parse(d: &[u8]) -> Result<Jpeg, String> {
    let mut j = Jpeg::default();
    let mut p = 0usize;
    if d.len() < 4 || d[0] != 0xFF || d[1] != 0xD8 {
        return Err("does not start with SOI".into());
    }
    j.order.push(0xD8);
    p += 2;
    // per component coefficient coverage
    let mut covered: Vec<[bool; 64]> = vec![];
    let mut cur_dht: [[Option<usize>; 4]; 2] = Default::default();
    let mut dri = 0usize;
    loop {
        if p >= d.len() {
            return Err("stream ends without EOI".into());
        }
        if d[p] != 0xFF {
            return Err(format!("expected a marker at byte {}, found {:#04x}", p, d[p]));
        }
        while p + 1 < d.len() && d[p + 1] == 0xFF {
            p += 1;
            j.fill_bytes += 1;
        }
        if p + 1 >= d.len() {
            return Err("stream ends inside a marker".into());
        }
        let m = d[p + 1];
        p += 2;
        j.order.push(m);
        if m == 0xD9 {
            if p != d.len() {
                return Err(format!("{} bytes follow EOI", d.len() - p));
            }
            break;
        }
        match m {
            0xC0 | 0xC2 | 0xC4 | 0xDA | 0xDB | 0xDD | 0xE0..=0xEF | 0xFE => {}
            _ => return Err(format!("unexpected marker {:#04x} at byte {}", m, p - 2)),
        }
        if p + 2 > d.len() {
            return Err("truncated segment length".into());
        }
        let len = (d[p] as usize) << 8 | d[p + 1] as usize;
        if len < 2 || p + len > d.len() {
            return Err(format!("segment {:#04x} at byte {} has bad length {}", m, p - 2, len));
        }
        let s = &d[p + 2..p + len];
        let seg_end = p + len;
        match m {
            0xE0..=0xEF => {
                if j.sof != 0 {
                    return Err("application segment after the frame header".into());
                }
                j.apps.push((m - 0xE0, s.to_vec()));
            }
            0xFE => {}
            0xDB => {
                let mut q = 0;
                while q < s.len() {
                    let pq = s[q] >> 4;
                    let tq = (s[q] & 15) as usize;
                    if tq > 3 {
                        return Err("DQT id > 3".into());
                    }
                    if pq != 0 {
                        return Err("16-bit quantisation table in an 8-bit process".into());
                    }
                    if q + 65 > s.len() {
                        return Err("DQT truncated".into());
                    }
                    let mut t = [0u16; 64];
                    for k in 0..64 {
                        t[k] = s[q + 1 + k] as u16;
                        if t[k] == 0 {
                            return Err(format!("DQT {}: zero quantiser at zig-zag index {}", tq, k));
                        }
                    }
                    if j.qt[tq].is_some() {
                        return Err(format!("DQT {} defined twice", tq));
                    }
                    j.qt[tq] = Some(t);
                    j.qt_count += 1;
                    q += 65;
                }
                if q != s.len() || s.is_empty() {
                    return Err("DQT length mismatch".into());
                }
            }
            0xC4 => {
                let mut q = 0;
                while q < s.len() {
                    let class = s[q] >> 4;
                    let id = s[q] & 15;
                    if class > 1 || id > 3 {
                        return Err("DHT class/id out of range".into());
                    }
                    if j.sof == 0xC0 && id > 1 {
                        return Err("DHT id > 1 in a baseline frame".into());
                    }
                    if q + 17 > s.len() {
                        return Err("DHT truncated".into());
                    }
                    let mut l = [0u8; 16];
                    l.copy_from_slice(&s[q + 1..q + 17]);
                    let n: usize = l.iter().map(|&x| x as usize).sum();
                    if n > 256 || q + 17 + n > s.len() {
                        return Err("DHT values truncated".into());
                    }
                    let vals = s[q + 17..q + 17 + n].to_vec();
                    for &v in &vals {
                        let bad = if class == 0 {
                            v > 11
                        } else {
                            let (r, z) = (v >> 4, v & 15);
                            z > 10 || (z == 0 && j.sof == 0xC0 && r != 0 && r != 15)
                        };
                        if bad {
                            return Err(format!("DHT class {} id {}: symbol {:#x} is illegal", class, id, v));
                        }
                    }
                    let t = Dht::build(class, id, l, vals)?;
                    cur_dht[class as usize][id as usize] = Some(j.dhts.len());
                    j.dhts.push(t);
                    q += 17 + n;
                }
                if q != s.len() || s.is_empty() {
                    return Err("DHT length mismatch".into());
                }
            }
            0xDD => {
                if s.len() != 2 {
                    return Err("DRI length mismatch".into());
                }
                dri = (s[0] as usize) << 8 | s[1] as usize;
                j.dris.push(dri);
            }
            0xC0 | 0xC2 => {
                if j.sof != 0 {
                    return Err("second frame header".into());
                }
                if s.len() < 6 {
                    return Err("SOF too short".into());
                }
                j.sof = m;
                j.precision = s[0];
                j.height = (s[1] as usize) << 8 | s[2] as usize;
                j.width = (s[3] as usize) << 8 | s[4] as usize;
                let n = s[5] as usize;
                if s.len() != 6 + 3 * n {
                    return Err("SOF length mismatch".into());
                }
                if j.precision != 8 || j.width == 0 || j.height == 0 || n == 0 || n > 4 {
                    return Err("SOF: bad precision, size or component count".into());
                }
                for c in 0..n {
                    let id = s[6 + 3 * c];
                    let h = (s[7 + 3 * c] >> 4) as usize;
                    let v = (s[7 + 3 * c] & 15) as usize;
                    let tq = s[8 + 3 * c] as usize;
                    if !(1..=4).contains(&h) || !(1..=4).contains(&v) || tq > 3 {
                        return Err("SOF: bad sampling factor or table".into());
                    }
                    if j.comps.iter().any(|o| o.id == id) {
                        return Err("SOF: duplicate component id".into());
                    }
                    j.comps.push(Comp { id, h, v, tq, bw: 0, bh: 0, sw: 0, sh: 0 });
                }
                j.hmax = j.comps.iter().map(|c| c.h).max().unwrap();
                j.vmax = j.comps.iter().map(|c| c.v).max().unwrap();
                let mw = ceil(j.width, 8 * j.hmax);
                let mh = ceil(j.height, 8 * j.vmax);
                for c in &mut j.comps {
                    c.bw = ceil(ceil(j.width * c.h, j.hmax), 8);
                    c.bh = ceil(ceil(j.height * c.v, j.vmax), 8);
                    c.sw = mw * c.h;
                    c.sh = mh * c.v;
                    j.coefs.push(vec![[0i16; 64]; c.sw * c.sh]);
                }
                covered = vec![[false; 64]; n];
            }
            0xDA => {
                if j.sof == 0 {
                    return Err("scan before the frame header".into());
                }
                let n = *s.first().ok_or("SOS empty")? as usize;
                if n == 0 || n > 4 || s.len() != 1 + 2 * n + 3 {
                    return Err("SOS length mismatch".into());
                }
                let (ss, se, a) = (s[1 + 2 * n], s[2 + 2 * n], s[3 + 2 * n]);
                let mut sc = Scan {
                    comps: vec![],
                    ss,
                    se,
                    mcus: 0,
                    restarts: 0,
                    dri,
                    bits: 0,
                    pad_bits: 0,
                    stuffed: 0,
                    start: seg_end,
                    end: 0,
                    rst_at: vec![],
                    tables: vec![],
                };
                if a != 0 {
                    return Err(format!("successive approximation {:#x} in the scan header", a));
                }
                if j.sof == 0xC0 && (ss != 0 || se != 63) {
                    return Err(format!("baseline scan with spectral selection {}..{}", ss, se));
                }
                if ss > se || se > 63 || (j.sof == 0xC2 && ss == 0 && se != 0) {
                    return Err(format!("illegal spectral selection {}..{}", ss, se));
                }
                if ss > 0 && n != 1 {
                    return Err("interleaved AC scan".into());
                }
                for c in 0..n {
                    let id = s[1 + 2 * c];
                    let t = s[2 + 2 * c];
                    let ci = j
                        .comps
                        .iter()
                        .position(|o| o.id == id)
                        .ok_or_else(|| format!("scan names unknown component {}", id))?;
                    if let Some(&last) = sc.comps.last() {
                        if ci <= last {
                            return Err("scan components out of frame order or repeated".into());
                        }
                    }
                    let (td, ta) = ((t >> 4) as usize, (t & 15) as usize);
                    let lim = if j.sof == 0xC0 { 1 } else { 3 };
                    if td > lim || ta > lim {
                        return Err("scan table selector out of range".into());
                    }
                    let need_dc = ss == 0;
                    let need_ac = se > 0;
                    let dc = cur_dht[0][td];
                    let ac = cur_dht[1][ta];
                    if (need_dc && dc.is_none()) || (need_ac && ac.is_none()) {
                        return Err("scan uses an undefined Huffman table".into());
                    }
                    if j.qt[j.comps[ci].tq].is_none() {
                        return Err("scan uses an undefined quantisation table".into());
                    }
                    for k in ss as usize..=se as usize {
                        if covered[ci][k] {
                            return Err(format!("component {} coefficient {} is sent twice", id, k));
                        }
                        covered[ci][k] = true;
                    }
                    if ss > 0 && !covered[ci][0] {
                        return Err("AC scan before the DC scan of its component".into());
                    }
                    sc.comps.push(ci);
                    sc.tables.push((if need_dc { dc } else { None }, if need_ac { ac } else { None }));
                }
                if n > 1 {
                    let sum: usize = sc.comps.iter().map(|&c| j.comps[c].h * j.comps[c].v).sum();
                    if sum > 10 {
                        return Err(format!("{} blocks in one MCU", sum));
                    }
                }
                p = decode_scan(d, seg_end, &mut j, &mut sc)?;
                sc.end = p;
                j.scans.push(sc);
                continue;
            }
            _ => unreachable!(),
        }
        p = seg_end;
    }
    if j.sof == 0 || j.scans.is_empty() {
        return Err("no frame or no scan".into());
    }
    for (c, cov) in covered.iter().enumerate() {
        if let Some(k) = cov.iter().position(|x| !x) {
            return Err(format!("component #{}: coefficient {} is never sent", c, k));
        }
    }
    Ok(j)
}

fn decode_scan(d: &[u8], start: usize, j: &mut Jpeg, sc: &mut Scan) -> Result<usize, String> {
    let mut b = Bits::new(d, start);
    let n = sc.comps.len();
    let (mx, my) = if n == 1 {
        (j.comps[sc.comps[0]].bw, j.comps[sc.comps[0]].bh)
    } else {
        (ceil(j.width, 8 * j.hmax), ceil(j.height, 8 * j.vmax))
    };
    sc.mcus = mx * my;
    let mut pred = [0i32; 4];
    let mut eobrun = 0u32;
    let progressive = j.sof == 0xC2;
    let mut since = 0usize;
    let mut next_rst = 0u8;
    // take tables out to satisfy the borrow checker
    let mut tabs = std::mem::take(&mut j.dhts);
    let mut run = || -> Result<usize, String> {
        for m in 0..mx * my {
            if sc.dri > 0 && since == sc.dri {
                if eobrun > 0 {
                    return Err("EOB run crosses a restart".into());
                }
                sc.pad_bits += b.finish().map_err(|e| format!("at restart before MCU {}: {}", m, e))? as u64;
                let want = 0xD0 + next_rst;
                if b.pos + 1 >= d.len() || d[b.pos + 1] != want {
                    return Err(format!(
                        "expected RST{} before MCU {} of scan with interval {}, found {:?}",
                        next_rst,
                        m,
                        sc.dri,
                        d.get(b.pos + 1)
                    ));
                }
                sc.rst_at.push(b.pos);
                b.pos += 2;
                next_rst = (next_rst + 1) & 7;
                sc.restarts += 1;
                since = 0;
                pred = [0; 4];
            }
            since += 1;
            for (k, &ci) in sc.comps.iter().enumerate() {
                let (ch, cv) = if n == 1 { (1, 1) } else { (j.comps[ci].h, j.comps[ci].v) };
                let sw = j.comps[ci].sw;
                for vy in 0..cv {
                    for vx in 0..ch {
                        let bx = (m % mx) * ch + vx;
                        let by = (m / mx) * cv + vy;
                        let blk = &mut j.coefs[ci][by * sw + bx];
                        j.blocks += 1;
                        let at = |e: String| format!("component #{} block ({},{}) MCU {}: {}", ci, bx, by, m, e);
                        if sc.ss == 0 {
                            let t = &mut tabs[sc.tables[k].0.unwrap()];
                            let s = t.decode(&mut b).map_err(at)? as u32;
                            let v = b.get(s).map_err(at)?;
                            pred[k] += extend(v, s);
                            if pred[k].abs() > 2047 {
                                return Err(at(format!("DC value {} out of range", pred[k])));
                            }
                            j.max_abs_dc = j.max_abs_dc.max(pred[k].abs());
                            blk[0] = pred[k] as i16;
                        }
                        if sc.se > 0 {
                            let lo = (sc.ss as usize).max(1);
                            let hi = sc.se as usize;
                            if eobrun > 0 {
                                eobrun -= 1;
                                continue;
                            }
                            let t = &mut tabs[sc.tables[k].1.unwrap()];
                            let mut i = lo;
                            while i <= hi {
                                let rs = t.decode(&mut b).map_err(at)?;
                                let (r, s) = ((rs >> 4) as usize, (rs & 15) as u32);
                                if s == 0 {
                                    if r == 15 {
                                        if i + 16 > hi {
                                            return Err(at("zero run passes the end of the band".into()));
                                        }
                                        i += 16;
                                        continue;
                                    }
                                    if !progressive && r != 0 {
                                        return Err(at(format!("illegal AC symbol {:#x}", rs)));
                                    }
                                    let extra = b.get(r as u32).map_err(at)?;
                                    eobrun = (1u32 << r) - 1 + extra;
                                    break;
                                }
                                i += r;
                                if i > hi {
                                    return Err(at("coefficient index passes the end of the band".into()));
                                }
                                let v = b.get(s).map_err(at)?;
                                let c = extend(v, s);
                                if c.abs() > 1023 {
                                    return Err(at(format!("AC value {} out of range", c)));
                                }
                                j.max_abs_ac = j.max_abs_ac.max(c.abs());
                                j.nonzero_ac += 1;
                                blk[i] = c as i16;
                                i += 1;
                            }
                        }
                    }
                }
            }
        }
        if eobrun > 0 {
            return Err("EOB run passes the end of the scan".into());
        }
        sc.pad_bits += b.finish().map_err(|e| format!("at end of scan: {}", e))? as u64;
        Ok(b.pos)
    };
    let r = run();
    j.dhts = tabs;
    sc.bits = b.consumed;
    sc.stuffed = b.stuffed;
    r
}

impl Jpeg {
    pub fn block(&self, c: usize, bx: usize, by: usize) -> &[i16; 64] {
        &self.coefs[c][by * self.comps[c].sw + bx]
    }
    /// True when some scan of component `c` is interleaved (so padding blocks are present).
    pub fn has_padding_blocks(&self, c: usize) -> bool {
        self.scans.iter().any(|s| s.comps.len() > 1 && s.comps.contains(&c))
    }
}
