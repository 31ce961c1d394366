//! Monitored destination. Records everything it is handed and injects faults on a plan.
use crate::rng::Rng;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// fail (permanently) once `at` bytes have been accepted
    At { at: usize, kind: u8 },
    /// as At, but later calls succeed again
    Once { at: usize, kind: u8 },
    /// accept nothing more (Ok(0)) once `at` bytes have been accepted
    Zero { at: usize },
    /// panic once `at` bytes have been accepted
    Panic { at: usize },
}

pub const KINDS: [std::io::ErrorKind; 12] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::StorageFull,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::OutOfMemory,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::Unsupported,
];

/// error numbers of the system (Linux)
const OS: [i32; 12] = [1, 5, 6, 11, 12, 13, 16, 27, 28, 32, 104, 122];

/// errors with a message of their own, bare kinds, and errors of the operating system
pub const FLAVOURS: u64 = 36;

pub fn injected(kind: u8, token: u64) -> std::io::Error {
    let k = kind as usize;
    match k / 12 {
        0 => std::io::Error::new(KINDS[k], format!("injected-{}", token)),
        1 => KINDS[k % 12].into(),
        _ => std::io::Error::from_raw_os_error(OS[k % 12]),
    }
}

#[derive(Default)]
pub struct Log {
    pub data: Vec<u8>,
    pub writes: u64,
    pub flushes: u64,
    pub errors: u64,
    pub zeros: u64,
    pub interrupted: u64,
    /// bytes offered after the first error was returned
    pub after_error: u64,
}

pub struct Sink {
    pub log: Arc<Mutex<Log>>,
    pub fault: Fault,
    pub token: u64,
    /// accept at most this many bytes per write call (0: all), drawn at random when `rng` is set
    pub chunk: usize,
    /// interrupt one write in n
    pub intr: u64,
    rng: Rng,
}

impl Sink {
    pub fn new(fault: Fault, chunk: usize, intr: u64, seed: u64) -> (Sink, Arc<Mutex<Log>>) {
        let log = Arc::new(Mutex::new(Log::default()));
        (Sink { log: log.clone(), fault, token: seed, chunk, intr, rng: Rng::new(seed) }, log)
    }
    fn step(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
        let mut l = self.log.lock().unwrap_or_else(|e| e.into_inner());
        l.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if l.errors > 0 || l.zeros > 0 {
            l.after_error += buf.len() as u64;
        }
        if self.intr > 0 && self.rng.chance(1, self.intr) {
            l.interrupted += 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "injected"));
        }
        let mut n = buf.len();
        if self.chunk > 0 {
            n = n.min(1 + self.rng.below(self.chunk as u64) as usize);
        }
        match self.fault {
            Fault::None => {}
            Fault::At { at, kind } | Fault::Once { at, kind } => {
                let once = matches!(self.fault, Fault::Once { .. });
                if !(once && l.errors > 0) {
                    if l.data.len() >= at {
                        l.errors += 1;
                        return Err(injected(kind, self.token));
                    }
                    n = n.min(at - l.data.len());
                }
            }
            Fault::Zero { at } => {
                if l.data.len() >= at {
                    l.zeros += 1;
                    return Ok(0);
                }
                n = n.min(at - l.data.len());
            }
            Fault::Panic { at } => {
                if l.data.len() >= at {
                    l.errors += 1;
                    drop(l);
                    panic!("injected-{}", self.token);
                }
                n = n.min(at - l.data.len());
            }
        }
        l.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

/// A destination that keeps what it is handed and fails when it is asked to pass it on: the first `times` flushes
/// return the error. Error number 36 is Interrupted.
pub struct FlushSink {
    pub data: Vec<u8>,
    pub kind: u8,
    pub token: u64,
    pub times: u64,
    pub flushes: u64,
    pub failed: u64,
    pub last_ok: bool,
    pub after_error: u64,
}

impl FlushSink {
    pub fn new(kind: u8, token: u64, times: u64) -> FlushSink {
        FlushSink { data: vec![], kind, token, times, flushes: 0, failed: 0, last_ok: true, after_error: 0 }
    }
    fn take(&mut self, buf: &[u8]) {
        if self.failed > 0 {
            self.after_error += buf.len() as u64;
        }
        self.data.extend_from_slice(buf);
    }
    fn pass_on(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        self.last_ok = self.flushes > self.times;
        if self.last_ok {
            return Ok(());
        }
        self.failed += 1;
        Err(if self.kind == 36 { std::io::Error::new(std::io::ErrorKind::Interrupted, format!("injected-{}", self.token)) } else { injected(self.kind, self.token) })
    }
}

#[cfg(feature = "std")]
impl std::io::Write for FlushSink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.take(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.pass_on()
    }
}

#[cfg(not(feature = "std"))]
impl jpeg_encoder::JfifWrite for FlushSink {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), jpeg_encoder::EncodingError> {
        self.take(buf);
        Ok(())
    }
    fn finish_image(&mut self) -> Result<(), jpeg_encoder::EncodingError> {
        self.pass_on().map_err(|e| jpeg_encoder::EncodingError::Write(format!("{:?} {}", e.kind(), e)))
    }
}

#[cfg(feature = "std")]
impl std::io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.step(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.log.lock().unwrap().flushes += 1;
        Ok(())
    }
}

#[cfg(not(feature = "std"))]
impl jpeg_encoder::JfifWrite for Sink {
    fn write_all(&mut self, mut buf: &[u8]) -> Result<(), jpeg_encoder::EncodingError> {
        while !buf.is_empty() {
            match self.step(buf) {
                Ok(0) => return Err(jpeg_encoder::EncodingError::Write("zero".into())),
                Ok(n) => buf = &buf[n..],
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(jpeg_encoder::EncodingError::Write(format!("{:?} {}", e.kind(), e))),
            }
        }
        Ok(())
    }
}
