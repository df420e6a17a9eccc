//! Shared run context: work partition over threads, case markers that survive a crash,
//! counters for the evidence file, violations.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
pub const MAX_VIOLATIONS: usize = 5;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub message: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub start: Instant,
    pub budget: Duration,
    pub only: Option<String>,
    slots: Slots,
    stop: AtomicBool,
    capped: AtomicBool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub violations: Mutex<Vec<Violation>>,
    pub samples: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub notes: Mutex<Vec<String>>,
    pub worlds: Mutex<Vec<(String, u64, u64, u64)>>,
    pub engine_error: Mutex<Option<String>>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "?".to_string(),
            },
        };
        let place = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let quiet = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if !quiet {
            eprintln!("engine panic: {} at {}", text, place);
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panicked: {} at {}", text, place));
    }));
}

/// Run library code; a panic in it becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

// ------------------------------------------------------------------------------------------------

pub const SLOT: usize = 16384;
const HALF: usize = SLOT / 2;

/// Per-thread text of the case being run, in a shared file mapping the parent process can read
/// after the worker has crashed or hung.
pub struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
    // RLIMIT_AS
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

impl Slots {
    pub fn open(path: &str) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)?;
        let len = SLOT * (THREADS + 1);
        f.set_len(len as u64)?;
        let base = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        if base as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base })
    }
    /// Layout: [counter u64][len_a u32][len_b u32][active u64] then text.
    fn at(&self, t: usize) -> *mut u8 {
        unsafe { self.base.add(t * SLOT) }
    }
    pub fn counter(&self, t: usize) -> (u64, bool) {
        unsafe {
            let p = self.at(t) as *const u64;
            (p.read_volatile(), p.add(2).read_volatile() != 0)
        }
    }
    pub fn text(&self, t: usize) -> (String, String) {
        unsafe {
            let p = self.at(t);
            let la = ((p.add(8) as *const u32).read_volatile() as usize).min(HALF - 64);
            let lb = ((p.add(12) as *const u32).read_volatile() as usize).min(HALF - 64);
            let a = std::slice::from_raw_parts(p.add(64), la);
            let b = std::slice::from_raw_parts(p.add(HALF), lb);
            (
                String::from_utf8_lossy(a).into_owned(),
                String::from_utf8_lossy(b).into_owned(),
            )
        }
    }
}

struct SlotWriter {
    p: *mut u8,
    n: usize,
}
impl std::fmt::Write for SlotWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(HALF - 64 - self.n);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), n) };
        self.n += n;
        Ok(())
    }
}

/// A worker thread's view of the context.
pub struct Th<'a> {
    pub ctx: &'a Ctx,
    pub t: usize,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    tick: u64,
    pub counts: BTreeMap<&'static str, u64>,
}

impl<'a> Th<'a> {
    pub fn new(ctx: &'a Ctx, t: usize) -> Self {
        let th = Th {
            ctx,
            t,
            states: 0,
            transitions: 0,
            validated: 0,
            tick: 0,
            counts: BTreeMap::new(),
        };
        unsafe { (ctx.slots.at(t) as *mut u64).add(2).write_volatile(1) };
        th
    }
    /// First part of the case text (shared by many cases).
    pub fn mark_a(&mut self, a: std::fmt::Arguments<'_>) {
        unsafe {
            let p = self.ctx.slots.at(self.t);
            let mut w = SlotWriter { p: p.add(64), n: 0 };
            let _ = w.write_fmt(a);
            (p.add(8) as *mut u32).write_volatile(w.n as u32);
            (p.add(12) as *mut u32).write_volatile(0);
            self.tick += 1;
            (p as *mut u64).write_volatile(self.tick);
        }
    }
    /// Second part of the case text.
    pub fn mark_b(&mut self, b: std::fmt::Arguments<'_>) {
        unsafe {
            let p = self.ctx.slots.at(self.t);
            let mut w = SlotWriter {
                p: p.add(HALF),
                n: 0,
            };
            let _ = w.write_fmt(b);
            (p.add(12) as *mut u32).write_volatile(w.n as u32);
            self.tick += 1;
            (p as *mut u64).write_volatile(self.tick);
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    /// Report a violation; the key names the specific case.
    pub fn violation(&self, key: impl Into<String>, message: impl Into<String>) {
        self.ctx.violation(key, message)
    }
    /// Run library code on behalf of the current case, panics are violations.
    pub fn call<T>(&self, key: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.violation(key(), e);
                None
            }
        }
    }
    pub fn stop(&self) -> bool {
        self.ctx.stop()
    }
}

impl Drop for Th<'_> {
    fn drop(&mut self) {
        unsafe { (self.ctx.slots.at(self.t) as *mut u64).add(2).write_volatile(0) };
        let c = self.ctx;
        c.states.fetch_add(self.states, Relaxed);
        c.transitions.fetch_add(self.transitions, Relaxed);
        c.validated.fetch_add(self.validated, Relaxed);
        if let Ok(mut extra) = c.extra.lock() {
            for (k, v) in &self.counts {
                *extra.entry(k.to_string()).or_insert(0) += v;
            }
        }
    }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, slots: Slots, budget: Duration, only: Option<String>) -> Ctx {
        Ctx {
            id: id.to_string(),
            tier,
            start: Instant::now(),
            budget,
            only,
            slots,
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            violations: Mutex::new(Vec::new()),
            samples: Mutex::new(Vec::new()),
            extra: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(Vec::new()),
            worlds: Mutex::new(Vec::new()),
            engine_error: Mutex::new(None),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` on the quick tier, `t` on the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn stop(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if self.start.elapsed() > self.budget {
            self.capped.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            return true;
        }
        false
    }
    pub fn capped(&self) -> bool {
        self.capped.load(Relaxed)
    }
    pub fn over_budget_part(&self, part: f64) -> bool {
        self.start.elapsed().as_secs_f64() > self.budget.as_secs_f64() * part
    }
    pub fn set_capped(&self) {
        self.capped.store(true, Relaxed);
    }
    pub fn violation(&self, key: impl Into<String>, message: impl Into<String>) {
        let mut v = self.violations.lock().unwrap();
        let key = key.into();
        if v.len() < MAX_VIOLATIONS && !v.iter().any(|x| x.key == key) {
            v.push(Violation {
                key,
                message: message.into(),
            });
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        let s = s.into();
        if v.len() < 12 && !s.is_empty() {
            v.push(s);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    /// Note what was covered of a world; worlds differing only in numbers are summed up.
    pub fn note_world(&self, name: &str, states: u64, transitions: u64, depth: usize, how: &str) {
        let family: String = name.chars().take_while(|c| !c.is_ascii_digit()).collect();
        let family = if family.len() == name.len() {
            name.to_string()
        } else {
            format!("{}N", family)
        };
        let key = format!("{}, depth {} ({})", family, depth, how);
        let mut w = self.worlds.lock().unwrap();
        match w.iter_mut().find(|x| x.0 == key) {
            Some(x) => {
                x.1 += 1;
                x.2 += states;
                x.3 += transitions;
            }
            None => w.push((key, 1, states, transitions)),
        }
    }
    pub fn all_notes(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .worlds
            .lock()
            .unwrap()
            .iter()
            .map(|(k, n, s, t)| {
                let many = if *n > 1 { format!("{} worlds ", n) } else { "world ".into() };
                format!("{}{}: {} states, {} transitions", many, k, s, t)
            })
            .collect();
        v.extend(self.notes.lock().unwrap().iter().cloned());
        v
    }
    pub fn add(&self, k: &str, n: u64) {
        *self
            .extra
            .lock()
            .unwrap()
            .entry(k.to_string())
            .or_insert(0) += n;
    }
    /// Run `f` for every index below `n`, item `i` on thread `i % THREADS`: the partition, and so
    /// every thread's history, is the same on every run.
    pub fn par<F>(&self, n: u64, f: F)
    where
        F: Fn(&mut Th<'_>, u64) + Sync,
    {
        self.par_collect(n, |th, i, _: &mut Vec<()>| f(th, i));
        if n <= UNHEARD {
            unheard(|| self.par_collect(n, |th, i, _: &mut Vec<()>| f(th, i)));
        }
    }
    pub fn par_collect<R: Send, F>(&self, n: u64, f: F) -> Vec<R>
    where
        F: Fn(&mut Th<'_>, u64, &mut Vec<R>) + Sync,
    {
        let mut all = Vec::new();
        std::thread::scope(|scope| {
            let mut handles = Vec::new();
            for t in 0..THREADS {
                let f = &f;
                let b = std::thread::Builder::new()
                    .name(format!("w{}", t))
                    .stack_size(64 << 20);
                handles.push(
                    b.spawn_scoped(scope, move || {
                        let mut out = Vec::new();
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut th = Th::new(self, t);
                            let mut i = t as u64;
                            while i < n {
                                if i & 63 == t as u64 & 63 && self.stop() || self.stop.load(Relaxed)
                                {
                                    break;
                                }
                                f(&mut th, i, &mut out);
                                i += THREADS as u64;
                            }
                        }));
                        if r.is_err() {
                            let (a, b) = self.slots.text(t);
                            *self.engine_error.lock().unwrap() = Some(format!(
                                "engine {} in case {} / {}",
                                PANIC.with(|p| p.borrow().clone()),
                                a,
                                b
                            ));
                            self.stop.store(true, Relaxed);
                        }
                        out
                    })
                    .unwrap(),
                );
            }
            for h in handles {
                if let Ok(out) = h.join() {
                    all.push(out);
                }
            }
        });
        all.into_iter().flatten().collect()
    }
}

/// Up to so many cases are run a second time without anybody listening to what the library logs.
pub const UNHEARD: u64 = 3_000;

/// Runs `f` while nobody listens to what the library logs, so that messages are not even put together.
pub fn unheard<T>(f: impl FnOnce() -> T) -> T {
    let level = log::max_level();
    log::set_max_level(log::LevelFilter::Off);
    let r = f();
    log::set_max_level(level);
    r
}

/// Runs `f` on a thread with a stack of `bytes`. Exhausting it kills the process, and the name of the
/// thread tells whose case it was.
pub fn with_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> T {
    let name = std::thread::current().name().unwrap_or("w0").to_string();
    std::thread::scope(|scope| {
        let t = std::thread::Builder::new().name(name).stack_size(bytes).spawn_scoped(scope, f).unwrap();
        match t.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
