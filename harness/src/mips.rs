//! A 32-bit big-endian MIPS (release 2, no floating point) that runs the agent (../../agent): one encode request per run,
//! from a fresh memory. Loads and stores outside the memory, misaligned ones and unknown instructions end the run.
use std::fmt;

const SIZE: usize = 256 << 20;
const INPUT: usize = 1 << 20;
const MAILBOX: u32 = 0xF000_0000;
/// the most expensive request of the lists needs a small part of this
const LIMIT: u64 = 8_000_000_000;

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// mailbox: kind, two values, the bytes written
    Left { kind: u32, a: u32, b: u32, data: Vec<u8> },
    /// the program did something a real machine would trap on
    Fault(String),
    /// this emulator lacks the instruction: no verdict
    Unknown(String),
}

impl fmt::Display for Stop {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Stop::Left { kind, a, b, data } => write!(f, "left {} {} {} {} bytes", kind, a, b, data.len()),
            Stop::Fault(m) => write!(f, "fault: {}", m),
            Stop::Unknown(m) => write!(f, "unknown: {}", m),
        }
    }
}

pub struct Image {
    entry: u32,
    /// (address, bytes)
    seg: Vec<(usize, Vec<u8>)>,
}

impl Image {
    pub fn load(elf: &[u8]) -> Option<Image> {
        let h = |o: usize| u16::from_be_bytes([elf[o], elf[o + 1]]) as usize;
        let w = |o: usize| u32::from_be_bytes([elf[o], elf[o + 1], elf[o + 2], elf[o + 3]]) as usize;
        if elf.get(..6)? != b"\x7fELF\x01\x02" || h(18) != 8 {
            return None;
        }
        let mut seg = vec![];
        for k in 0..h(44) {
            let p = w(28) + k * h(42);
            if w(p) == 1 {
                let (off, at, len, mem) = (w(p + 4), w(p + 8), w(p + 16), w(p + 20));
                let mut d = elf.get(off..off + len)?.to_vec();
                d.resize(mem.max(len), 0);
                if at + d.len() > INPUT {
                    return None;
                }
                seg.push((at, d));
            }
        }
        Some(Image { entry: w(24) as u32, seg })
    }
}

pub struct Cpu<'a> {
    image: &'a Image,
    mem: Vec<u8>,
    r: [u32; 32],
    hi: u32,
    lo: u32,
    pub instructions: u64,
}

fn sx(v: u32) -> u32 {
    v as u16 as i16 as i32 as u32
}

impl<'a> Cpu<'a> {
    pub fn new(image: &'a Image) -> Cpu<'a> {
        Cpu { image, mem: vec![0; SIZE], r: [0; 32], hi: 0, lo: 0, instructions: 0 }
    }

    #[inline(always)]
    fn ld<const N: usize>(&self, a: u32) -> Result<[u8; N], Stop> {
        let a = a as usize;
        if a % N != 0 {
            return Err(Stop::Fault(format!("misaligned load of {} bytes at {:#x}", N, a)));
        }
        match self.mem.get(a..a + N) {
            Some(s) if a >= 4096 => Ok(s.try_into().unwrap()),
            _ => Err(Stop::Fault(format!("load at {:#x}", a))),
        }
    }

    #[inline(always)]
    fn st<const N: usize>(&mut self, a: u32, v: [u8; N]) -> Result<(), Stop> {
        let a = a as usize;
        if a % N != 0 {
            return Err(Stop::Fault(format!("misaligned store of {} bytes at {:#x}", N, a)));
        }
        match self.mem.get_mut(a..a.wrapping_add(N)) {
            Some(s) if a >= 4096 => {
                s.copy_from_slice(&v);
                Ok(())
            }
            _ => Err(Stop::Fault(format!("store at {:#x}", a))),
        }
    }

    pub fn run(&mut self, input: &[u8]) -> Stop {
        for (at, d) in &self.image.seg {
            self.mem[*at..at + d.len()].copy_from_slice(d);
        }
        let heap = (INPUT + input.len() + 15) & !15;
        let stack = SIZE - 64;
        let heap_end = SIZE - (8 << 20);
        if heap >= heap_end {
            return Stop::Unknown("request too large for the emulated memory".into());
        }
        self.mem[INPUT..INPUT + input.len()].copy_from_slice(input);
        self.r = [0; 32];
        self.r[4] = INPUT as u32;
        self.r[5] = input.len() as u32;
        self.r[6] = heap as u32;
        self.r[7] = heap_end as u32;
        self.r[29] = stack as u32;
        match self.go() {
            Ok(()) => unreachable!(),
            Err(s) => s,
        }
    }

    fn go(&mut self) -> Result<(), Stop> {
        let mut mailbox = [0u32; 5];
        let mut pc = self.image.entry;
        let mut npc = pc.wrapping_add(4);
        let mut n = 0u64;
        loop {
            n += 1;
            if n > LIMIT {
                return Err(Stop::Fault("instruction limit reached".into()));
            }
            let i = u32::from_be_bytes(self.ld::<4>(pc)?);
            let here = pc;
            pc = npc;
            npc = npc.wrapping_add(4);
            let (rs, rt, rd, sa) = ((i >> 21 & 31) as usize, (i >> 16 & 31) as usize, (i >> 11 & 31) as usize, i >> 6 & 31);
            let (s, t) = (self.r[rs], self.r[rt]);
            let imm = sx(i);
            let to = pc.wrapping_add(imm << 2);
            let unknown = || Err(Stop::Unknown(format!("instruction {:08x} at {:#x}", i, here)));
            macro_rules! set {
                ($r:expr, $v:expr) => {{
                    self.r[$r] = $v;
                    self.r[0] = 0;
                }};
            }
            match i >> 26 {
                0 => match i & 63 {
                    0 => set!(rd, t << sa),
                    2 => set!(rd, if rs & 1 == 1 { t.rotate_right(sa) } else { t >> sa }),
                    3 => set!(rd, (t as i32 >> sa) as u32),
                    4 => set!(rd, t << (s & 31)),
                    6 => set!(rd, if sa & 1 == 1 { t.rotate_right(s & 31) } else { t >> (s & 31) }),
                    7 => set!(rd, (t as i32 >> (s & 31)) as u32),
                    8 => npc = s,
                    9 => {
                        set!(rd, here.wrapping_add(8));
                        npc = s;
                    }
                    10 => {
                        if t == 0 {
                            set!(rd, s)
                        }
                    }
                    11 => {
                        if t != 0 {
                            set!(rd, s)
                        }
                    }
                    13 => return Err(Stop::Fault(format!("break at {:#x}", here))),
                    15 => {}
                    16 => set!(rd, self.hi),
                    17 => self.hi = s,
                    18 => set!(rd, self.lo),
                    19 => self.lo = s,
                    24 => self.hilo((s as i32 as i64 * t as i32 as i64) as u64),
                    25 => self.hilo(s as u64 * t as u64),
                    // division by zero is undefined, not a trap; the program tests before
                    26 if t != 0 => {
                        self.lo = (s as i32).wrapping_div(t as i32) as u32;
                        self.hi = (s as i32).wrapping_rem(t as i32) as u32;
                    }
                    27 if t != 0 => {
                        self.lo = s / t;
                        self.hi = s % t;
                    }
                    26 | 27 => return Err(Stop::Fault(format!("division by zero at {:#x}", here))),
                    33 => set!(rd, s.wrapping_add(t)),
                    35 => set!(rd, s.wrapping_sub(t)),
                    36 => set!(rd, s & t),
                    37 => set!(rd, s | t),
                    38 => set!(rd, s ^ t),
                    39 => set!(rd, !(s | t)),
                    42 => set!(rd, ((s as i32) < t as i32) as u32),
                    43 => set!(rd, (s < t) as u32),
                    // conditional traps: never taken by a correct program
                    k @ (48..=52 | 54) => {
                        let (a, b) = (s as i32, t as i32);
                        let hit = match k {
                            48 => a >= b,
                            49 => s >= t,
                            50 => a < b,
                            51 => s < t,
                            52 => a == b,
                            _ => a != b,
                        };
                        if hit {
                            return Err(Stop::Fault(format!("trap at {:#x}", here)));
                        }
                    }
                    _ => return unknown(),
                },
                1 => {
                    let neg = (s as i32) < 0;
                    match rt {
                        0 if neg => npc = to,
                        1 if !neg => npc = to,
                        0 | 1 => {}
                        16 | 17 => {
                            if neg == (rt == 16) {
                                npc = to;
                            }
                            set!(31, here.wrapping_add(8));
                        }
                        _ => return unknown(),
                    }
                }
                2 => npc = (pc & 0xF000_0000) | (i & 0x3FF_FFFF) << 2,
                3 => {
                    set!(31, here.wrapping_add(8));
                    npc = (pc & 0xF000_0000) | (i & 0x3FF_FFFF) << 2;
                }
                4 => {
                    if s == t {
                        npc = to
                    }
                }
                5 => {
                    if s != t {
                        npc = to
                    }
                }
                6 => {
                    if s as i32 <= 0 {
                        npc = to
                    }
                }
                7 => {
                    if s as i32 > 0 {
                        npc = to
                    }
                }
                9 => set!(rt, s.wrapping_add(imm)),
                10 => set!(rt, ((s as i32) < imm as i32) as u32),
                11 => set!(rt, (s < imm) as u32),
                12 => set!(rt, s & (i & 0xFFFF)),
                13 => set!(rt, s | (i & 0xFFFF)),
                14 => set!(rt, s ^ (i & 0xFFFF)),
                15 => set!(rt, i << 16),
                28 => match i & 63 {
                    0 | 1 | 4 | 5 => {
                        let acc = (self.hi as u64) << 32 | self.lo as u64;
                        let p = if i & 1 == 0 { (s as i32 as i64 * t as i32 as i64) as u64 } else { s as u64 * t as u64 };
                        self.hilo(if i & 4 == 0 { acc.wrapping_add(p) } else { acc.wrapping_sub(p) });
                    }
                    2 => set!(rd, s.wrapping_mul(t)),
                    32 => set!(rd, s.leading_zeros()),
                    33 => set!(rd, s.leading_ones()),
                    _ => return unknown(),
                },
                31 => match i & 63 {
                    0 => {
                        let size = rd as u32 + 1;
                        set!(rt, (s >> sa) & (((1u64 << size) - 1) as u32))
                    }
                    4 => {
                        let size = rd as u32 - sa + 1;
                        let mask = (((1u64 << size) - 1) as u32) << sa;
                        set!(rt, (t & !mask) | ((s << sa) & mask))
                    }
                    32 => match sa {
                        2 => set!(rd, (t & 0x00FF_00FF) << 8 | (t >> 8 & 0x00FF_00FF)),
                        16 => set!(rd, t as u8 as i8 as i32 as u32),
                        24 => set!(rd, sx(t)),
                        _ => return unknown(),
                    },
                    _ => return unknown(),
                },
                op @ 32..=46 => {
                    let a = s.wrapping_add(imm);
                    match op {
                        32 => set!(rt, self.ld::<1>(a)?[0] as i8 as i32 as u32),
                        33 => set!(rt, i16::from_be_bytes(self.ld::<2>(a)?) as i32 as u32),
                        35 => set!(rt, u32::from_be_bytes(self.ld::<4>(a)?)),
                        36 => set!(rt, self.ld::<1>(a)?[0] as u32),
                        37 => set!(rt, u16::from_be_bytes(self.ld::<2>(a)?) as u32),
                        40 => self.st(a, [t as u8])?,
                        41 => self.st(a, (t as u16).to_be_bytes())?,
                        43 => {
                            if a & 0xFFFF_FFE0 == MAILBOX && a % 4 == 0 && a < MAILBOX + 20 {
                                mailbox[(a as usize & 31) / 4] = t;
                                if a == MAILBOX + 16 {
                                    self.instructions += n;
                                    let (p, l) = (mailbox[0] as usize, mailbox[1] as usize);
                                    let data = if l == 0 { Some(&[][..]) } else { self.mem.get(p..p + l) };
                                    return Err(match data {
                                        Some(d) => Stop::Left { kind: t, a: mailbox[2], b: mailbox[3], data: d.to_vec() },
                                        None => Stop::Fault("result outside the memory".into()),
                                    });
                                }
                            } else {
                                self.st(a, t.to_be_bytes())?
                            }
                        }
                        // the parts of an unaligned word: bytes a.. up to the word's end, and from its start up to a
                        34 | 38 | 42 | 46 => {
                            let base = a & !3;
                            let k = (a & 3) as usize;
                            let mut w = self.ld::<4>(base)?;
                            let mut v = t.to_be_bytes();
                            match op {
                                34 => v[..4 - k].copy_from_slice(&w[k..]),
                                38 => v[3 - k..].copy_from_slice(&w[..k + 1]),
                                42 => w[k..].copy_from_slice(&v[..4 - k]),
                                _ => w[..k + 1].copy_from_slice(&v[3 - k..]),
                            }
                            if op < 40 {
                                set!(rt, u32::from_be_bytes(v))
                            } else {
                                self.st(base, w)?
                            }
                        }
                        _ => return unknown(),
                    }
                }
                // load linked, store conditional on a single processor
                48 => set!(rt, u32::from_be_bytes(self.ld::<4>(s.wrapping_add(imm))?)),
                56 => {
                    self.st(s.wrapping_add(imm), t.to_be_bytes())?;
                    set!(rt, 1)
                }
                51 => {}
                _ => return unknown(),
            }
        }
    }

    fn hilo(&mut self, v: u64) {
        self.hi = (v >> 32) as u32;
        self.lo = v as u32;
    }
}
