//! One job of a digest list as plain data: it runs in this process, or travels to the agent inside the emulator.
use crate::case::*;
use crate::ctx::guard;
use crate::dump::outcome;
use crate::mips::{Cpu, Stop};
use crate::rng::fnv;
use jpeg_encoder::*;

pub struct Spec {
    pub case: Case,
    /// input bytes, as many as the request hands over
    pub px: Vec<u8>,
    /// capacity of the destination vector, and bytes already in it
    pub cap: usize,
    pub prefix: usize,
    /// the destination is the vector itself, not a trait object
    pub direct: bool,
    /// a request that must be refused: report what was written instead
    pub refused: bool,
    pub text: String,
}

impl Spec {
    pub fn new(case: Case) -> Spec {
        let px = case.pixels();
        let text = case.to_string();
        Spec { case, px, cap: 0, prefix: 0, direct: false, refused: false, text }
    }

    pub fn native(&self) -> String {
        let c = &self.case;
        let mut out = Vec::with_capacity(self.cap);
        out.extend_from_slice(&[9u8; 10][..self.prefix]);
        let res = guard(|| {
            if self.direct && !c.buf {
                let mut e = Encoder::new(&mut out, c.q);
                c.configure(&mut e)?;
                e.encode(&self.px, c.w, c.h, c.color())
            } else if self.refused {
                let mut e = Encoder::new(&mut out as Dst, c.q);
                c.configure(&mut e)?;
                e.encode(&self.px, c.w, c.h, c.color())
            } else {
                c.encode_to(&mut out, &self.px)
            }
        });
        let n = out.len();
        if self.refused {
            return format!("{} wrote {}", outcome(res.map(|x| x.map(|_| vec![]))), n);
        }
        outcome(res.map(|x| x.map(|_| out)))
    }

    fn bytes(&self) -> Vec<u8> {
        let c = &self.case;
        let mut v = vec![];
        let u32s = |v: &mut Vec<u8>, n: usize| v.extend_from_slice(&(n as u32).to_be_bytes());
        let u16s = |v: &mut Vec<u8>, n: u16| v.extend_from_slice(&n.to_be_bytes());
        u32s(&mut v, self.cap);
        v.push(self.prefix as u8);
        v.push(c.ct);
        u16s(&mut v, c.w);
        u16s(&mut v, c.h);
        v.push(self.direct as u8);
        v.push(c.q);
        let (k, x, y) = match c.dens {
            Dens::None => (0, 0, 0),
            Dens::Inch(x, y) => (1, x, y),
            Dens::Cm(x, y) => (2, x, y),
        };
        v.push(k);
        u16s(&mut v, x);
        u16s(&mut v, y);
        v.push(c.sf.unwrap_or(255));
        if c.qt == [Qt::Preset(0); 2] {
            v.push(0);
        } else {
            v.push(1);
            for q in c.qt {
                match q {
                    Qt::Preset(p) => v.push(p.min(8)),
                    Qt::Custom(..) => {
                        v.push(9);
                        for x in q.table().unwrap() {
                            u16s(&mut v, x);
                        }
                    }
                }
            }
        }
        v.push(match c.prog {
            None => 0,
            Some(4) if c.seed & 1 == 0 => 255,
            Some(p) => p,
        });
        u16s(&mut v, c.ri);
        v.push(c.opt as u8);
        u16s(&mut v, c.app.len() as u16);
        for a in &c.app {
            v.push(a.0);
            let d = Case::app_data(a);
            u32s(&mut v, d.len());
            v.extend_from_slice(&d);
        }
        match &c.icc {
            None => v.push(0),
            Some(i) => {
                v.push(1);
                let d = Case::icc_data(i);
                u32s(&mut v, d.len());
                v.extend_from_slice(&d);
            }
        }
        let planar = c.buf && !self.refused;
        v.push(planar as u8);
        let data = if planar { planes(c, &self.px).concat() } else { self.px.clone() };
        u32s(&mut v, data.len());
        v.extend_from_slice(&data);
        v
    }

    /// the same outcome text from the emulated machine; Err: no verdict
    pub fn emulated(&self, cpu: &mut Cpu) -> Result<String, String> {
        let (kind, a, b, data) = match cpu.run(&self.bytes()) {
            Stop::Left { kind, a, b, data } => (kind, a, b, data),
            Stop::Fault(m) => return Ok(format!("fault: {}", m)),
            Stop::Unknown(m) => return Err(m),
        };
        let n = data.len();
        let o = match kind {
            0 => {
                let d = if self.refused { &[][..] } else { &data[..] };
                format!("{:016x} {}", fnv(d), d.len())
            }
            1 => format!("E:InvalidAppSegment {}", a),
            2 => format!("E:AppSegmentTooLarge {}", a),
            3 => format!("E:IccTooLarge {}", a),
            4 => format!("E:BadImageData {}", a),
            5 => format!("E:Zero {}x{}", a, b),
            6 => "E:other".into(),
            255 => return Ok(format!("panic at {}:{}", String::from_utf8_lossy(&data), a)),
            254 => return Err(format!("no room for {} bytes in the emulated memory", a)),
            _ => return Err(format!("the agent left {}", kind)),
        };
        Ok(if self.refused { format!("{} wrote {}", o, n) } else { o })
    }
}
