//! Runner: deterministic jobs on all cores, guarded calls, counters, violations, evidence fragments.
use crate::rng::{fnv, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub type Res = Result<(), String>;

pub struct Violation {
    pub seed: u64,
    pub tag: String,
    pub idx: u64,
    pub what: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Totals {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: AtomicU64,
    pub threads: usize,
    pub start: Instant,
    /// seconds after which no new job is started
    pub budget: f64,
    pub only: Option<(String, u64)>,
    pub totals: Mutex<Totals>,
    pub viol: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub skipped: AtomicU64,
    pub hang_cpu_s: f64,
    /// (k, n): only jobs whose index is k modulo n
    pub shard: (u64, u64),
}

pub struct Local<'a> {
    pub ctx: &'a Ctx,
    pub tag: String,
    pub idx: u64,
    pub t: Totals,
    slot: &'a Slot,
}

#[derive(Default)]
struct Slot {
    what: Mutex<String>,
    clock: AtomicU64,
    begin_cpu: AtomicU64,
    busy: AtomicBool,
    idx: AtomicU64,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run a call into the library; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.try_with(|p| p.borrow_mut().take()).ok().flatten().unwrap_or_else(|| "?".into())),
    }
}

#[cfg(all(unix, not(miri)))]
mod cpu {
    #[repr(C)]
    struct Ts {
        s: std::ffi::c_long,
        n: std::ffi::c_long,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    pub fn my_clock() -> u64 {
        let mut c = 0i32;
        unsafe {
            if pthread_getcpuclockid(pthread_self(), &mut c) != 0 {
                return 0;
            }
        }
        c as u32 as u64
    }
    pub fn read(c: u64) -> f64 {
        let mut t = Ts { s: 0, n: 0 };
        unsafe {
            if clock_gettime(c as u32 as i32, &mut t) != 0 {
                return 0.0;
            }
        }
        t.s as f64 + t.n as f64 * 1e-9
    }
}
#[cfg(any(not(unix), miri))]
mod cpu {
    pub fn my_clock() -> u64 {
        0
    }
    pub fn read(_: u64) -> f64 {
        0.0
    }
}

impl Totals {
    fn merge(&mut self, o: Totals) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(v);
            if v > *e {
                *e = v;
            }
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.evals += o.evals;
    }
}

impl<'a> Local<'a> {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.t.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.t.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.t.maxima.entry(k.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    /// member of a coverage set whose size is reported
    pub fn cover(&mut self, k: &str, v: u64) {
        match self.t.sets.get_mut(k) {
            Some(s) => {
                s.insert(v);
            }
            None => {
                self.t.sets.insert(k.to_string(), HashSet::from([v]));
            }
        }
    }
    /// one evaluated case; `nontrivial` cases are counted once per distinct text
    pub fn eval(&mut self, what: &str, nontrivial: bool) {
        self.t.evals += 1;
        if nontrivial {
            self.t.distinct.insert(fnv(what.as_bytes()));
        }
        if self.t.samples.len() < 2 && nontrivial {
            self.t.samples.push(format!("{}#{}: {}", self.tag, self.idx, what));
        }
    }
    /// the hang clock of this job starts again: a new request begins
    pub fn tick(&mut self) {
        self.slot.begin_cpu.store((cpu::read(self.slot.clock.load(SeqCst)) * 1e6) as u64, SeqCst);
    }
    /// text shown if this job fails, panics or hangs
    pub fn what(&mut self, s: &str) {
        let mut g = self.slot.what.lock().unwrap();
        g.clear();
        g.push_str(s);
        #[cfg(feature = "fence")]
        crate::fence::note(&format!("{}\t{}\t{}\t{}", self.ctx.seed.load(SeqCst), self.tag, self.idx, s));
    }
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, budget: f64) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed: AtomicU64::new(seed),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            start: Instant::now(),
            budget,
            only: None,
            totals: Mutex::new(Totals::default()),
            viol: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            skipped: AtomicU64::new(0),
            hang_cpu_s: 60.0,
            shard: (0, 1),
        }
    }
    /// pick by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn report(&self, tag: &str, idx: u64, what: String, msg: String) {
        let mut v = self.viol.lock().unwrap();
        if v.len() < 20 {
            v.push(Violation { seed: self.seed.load(SeqCst), tag: tag.into(), idx, what, msg });
        }
        if v.len() >= 3 {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn run(&self, tag: &str, n: u64, f: impl Fn(&mut Rng, u64, &mut Local) -> Res + Sync) {
        self.run_t(tag, n, self.threads, f)
    }
    pub fn run_t(&self, tag: &str, n: u64, threads: usize, f: impl Fn(&mut Rng, u64, &mut Local) -> Res + Sync) {
        if let Some((t, _)) = &self.only {
            if t != tag {
                return;
            }
        }
        let next = AtomicU64::new(0);
        let threads = if self.only.is_some() { 1 } else { threads.min(n.max(1) as usize) };
        let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
        let done = AtomicU64::new(0);
        let t0 = Instant::now();
        std::thread::scope(|s| {
            for slot in &slots {
                let (next, f, done) = (&next, &f, &done);
                s.spawn(move || {
                    slot.clock.store(cpu::my_clock(), SeqCst);
                    let mut l = Local { ctx: self, tag: tag.into(), idx: 0, t: Totals::default(), slot };
                    loop {
                        let i = match &self.only {
                            Some((_, i)) => {
                                if next.fetch_add(1, SeqCst) > 0 {
                                    break;
                                }
                                *i
                            }
                            None => next.fetch_add(1, SeqCst),
                        };
                        if i >= n || self.stop.load(SeqCst) {
                            break;
                        }
                        if self.only.is_none() && i % self.shard.1 != self.shard.0 {
                            continue;
                        }
                        if self.only.is_none() && self.start.elapsed().as_secs_f64() > self.budget {
                            self.skipped.fetch_add(1, SeqCst);
                            continue;
                        }
                        l.idx = i;
                        slot.what.lock().unwrap().clear();
                        slot.begin_cpu.store((cpu::read(slot.clock.load(SeqCst)) * 1e6) as u64, SeqCst);
                        slot.idx.store(i, SeqCst);
                        slot.busy.store(true, SeqCst);
                        let mut r = Rng::derive(self.seed.load(SeqCst), tag, i);
                        #[cfg(feature = "fence")]
                        {
                            crate::fence::note(&format!("{}\t{}\t{}\t", self.seed.load(SeqCst), tag, i));
                            crate::fence::mode(1 + ((i + self.seed.load(SeqCst) / 1_000_003) % 2) as u8);
                        }
                        let res = match guard(|| f(&mut r, i, &mut l)) {
                            Ok(x) => x,
                            Err(p) => Err(format!("panic: {}", p)),
                        };
                        #[cfg(feature = "fence")]
                        crate::fence::mode(0);
                        slot.busy.store(false, SeqCst);
                        if !cfg!(miri) {
                            let used = cpu::read(slot.clock.load(SeqCst)) - slot.begin_cpu.load(SeqCst) as f64 * 1e-6;
                            l.max("request_or_job_cpu_s", used);
                            if std::env::var("JMON_TIMES").is_ok() {
                                l.max(&format!("job_cpu_s {}", tag), used);
                            }
                        }
                        if let Err(m) = res {
                            let w = slot.what.lock().unwrap().clone();
                            self.report(tag, i, w, m);
                        }
                    }
                    self.totals.lock().unwrap().merge(std::mem::take(&mut l.t));
                    done.fetch_add(1, SeqCst);
                });
            }
            // watchdog on consumed CPU time per job
            if !cfg!(miri) {
                let (slots, done) = (&slots, &done);
                s.spawn(move || {
                    let mut k = 0u32;
                    while done.load(SeqCst) < threads as u64 {
                        std::thread::sleep(std::time::Duration::from_millis(if k < 50 { 1 } else { 20 }));
                        k += 1;
                        if k % 25 != 0 {
                            continue;
                        }
                        for s in slots.iter() {
                            if s.busy.load(SeqCst) {
                                let used = cpu::read(s.clock.load(SeqCst)) - s.begin_cpu.load(SeqCst) as f64 * 1e-6;
                                if used > self.hang_cpu_s && s.busy.load(SeqCst) {
                                    let w = s.what.lock().unwrap().clone();
                                    println!("HANG tag={} cpu_s={:.1} case: {}", tag, used, w);
                                    self.report(tag, s.idx.load(SeqCst), w, format!("no result after {:.0} s of CPU time", used));
                                    crate::finish(self);
                                }
                            }
                        }
                    }
                });
            }
        });
        if std::env::var("JMON_TIMES").is_ok() {
            println!("# {} {} jobs {:.2}s", tag, n, t0.elapsed().as_secs_f64());
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
