//! The event runner: deterministic chunks of work on several threads, each call into
//! the code under test bracketed (panics, runaway time and memory are observations),
//! violations written out as replay files, coverage counted as it happens.

use crate::model;
use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- allocator

pub struct Counting;
thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static ALLOC_N: Cell<u64> = const { Cell::new(0) };
    static ALLOC_LIVE: Cell<u64> = const { Cell::new(0) };
    static ALLOC_PEAK: Cell<u64> = const { Cell::new(0) };
}
/// Bytes a single call may hold at once before it counts as runaway.
pub const ALLOC_LIMIT: u64 = 512 << 20;

fn note_alloc(n: usize) {
    if IN_SUT.with(|c| c.get()) {
        ALLOC_N.with(|c| c.set(c.get() + 1));
        let live = ALLOC_LIVE.with(|c| {
            let v = c.get().wrapping_add(n as u64);
            c.set(v);
            v
        });
        if live < 1 << 62 {
            ALLOC_PEAK.with(|c| c.set(c.get().max(live)));
        }
        if live > ALLOC_LIMIT && live < 1 << 62 {
            IN_SUT.with(|c| c.set(false));
            emergency("call holds more than 512 MiB of memory");
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if IN_SUT.with(|c| c.get()) {
            ALLOC_LIVE.with(|c| c.set(c.get().wrapping_sub(l.size() as u64)));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            note_alloc(n - l.size());
        } else if IN_SUT.with(|c| c.get()) {
            ALLOC_LIVE.with(|c| c.set(c.get().wrapping_sub((l.size() - n) as u64)));
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// Allocations made by the code under test during the last bracketed call.
pub fn allocs_in_call() -> u64 {
    ALLOC_N.with(|c| c.get())
}

/// Most bytes held at once during the last bracketed call, and bytes still held at its end.
pub fn heap_in_call() -> (u64, i64) {
    (ALLOC_PEAK.with(|c| c.get()), ALLOC_LIVE.with(|c| c.get()) as i64)
}

// ---------------------------------------------------------------- stack and CPU meters

const PAINT: usize = 384 << 10;
#[inline(never)]
fn paint() {
    let mut a = std::mem::MaybeUninit::<[u64; PAINT / 8]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    for i in 0..PAINT / 8 {
        unsafe { p.add(i).write_volatile(0x5aa5_c33c_0ff0_9669) }
    }
    std::hint::black_box(&mut a);
}
#[inline(never)]
fn unpainted() -> usize {
    let a = std::mem::MaybeUninit::<[u64; PAINT / 8]>::uninit();
    let p = std::hint::black_box(a.as_ptr() as *const u64);
    // (the two frames need not lie at exactly the same place,
    // and stack probes write one word in each page)
    let mut before = false;
    for i in 512..PAINT / 8 {
        let hit = unsafe { p.add(i).read_volatile() } != 0x5aa5_c33c_0ff0_9669;
        if hit && before {
            return PAINT - 8 * i;
        }
        before = hit;
    }
    0
}
/// Run a call and report how many bytes of stack it touched (at least; up to 384 KiB).
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    paint();
    let r = f();
    (r, unpainted())
}
#[repr(C)]
struct Ts(i64, i64);
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
/// CPU time of this thread, in seconds.
pub fn cpu_s() -> f64 {
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub op: &'static str,
    pub fmt: &'static str,
    pub mode: u8,
    pub n: u8,
    pub args: [u128; 4],
}
pub const NOMODE: u8 = 9;
pub fn case(op: &'static str, fmt: &'static str, mode: u8, args: &[u128]) -> Case {
    let mut a = [0; 4];
    a[..args.len()].copy_from_slice(args);
    Case { op, fmt, mode, n: args.len() as u8, args: a }
}
impl Case {
    pub fn describe(&self) -> String {
        let mut s = format!("{} {}", self.fmt, self.op);
        for a in &self.args[..self.n as usize] {
            let _ = write!(s, " {:#x}", a);
        }
        if (self.mode as usize) < 5 {
            let _ = write!(s, " {}", model::MODE_NAMES[self.mode as usize]);
        }
        s
    }
}

thread_local! {
    static CUR: RefCell<(Case, Option<String>)> = const { RefCell::new((Case { op: "", fmt: "", mode: 9, n: 0, args: [0; 4] }, None)) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CHUNK: Cell<u64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

const SLOTS: usize = 64;
struct Slot {
    seq: AtomicU64,
    busy: AtomicBool,
    tid: AtomicU64,
    chunk: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { seq: AtomicU64::new(0), busy: AtomicBool::new(false), tid: AtomicU64::new(0), chunk: AtomicU64::new(0) };
static SLOTTAB: [Slot; SLOTS] = [EMPTY; SLOTS];

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub build: String,
    pub outdir: String,
    pub only_chunk: Option<u64>,
    pub cap_s: f64,
}
/// Where the chunk each worker is on, or (traced) every call before it is made, is recorded:
/// read by check.py if a signal ends the process.
static PROGRESS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
static TRACE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
static CFG: Mutex<Option<Cfg>> = Mutex::new(None);
static STOP: AtomicBool = AtomicBool::new(false);
static NVIOL: AtomicUsize = AtomicUsize::new(0);
static KNOWN: Mutex<Vec<String>> = Mutex::new(Vec::new());
static KNOWN_HIT: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c as u32 > 0xffff => {
                if c as u32 > 0xffff {
                    let v = c as u32 - 0x10000;
                    let _ = write!(o, "\\u{:04x}\\u{:04x}", 0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff));
                } else {
                    let _ = write!(o, "\\u{:04x}", c as u32);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(chunk: u64, c: &Case, text: Option<&str>, what: &str) {
    let desc = c.describe();
    let key = match text {
        Some(t) => format!("{} {:?}", desc, t),
        None => desc.clone(),
    };
    {
        let known = KNOWN.lock().unwrap();
        if let Some(k) = known.iter().find(|k| key == **k) {
            let mut h = KNOWN_HIT.lock().unwrap();
            if !h.contains(k) {
                h.push(k.clone());
            }
            return;
        }
    }
    let n = NVIOL.fetch_add(1, SeqCst);
    if n >= 5 {
        STOP.store(true, SeqCst);
        return;
    }
    let g = CFG.lock().unwrap_or_else(|e| e.into_inner());
    let Some(cfg) = g.as_ref() else { return };
    let path = format!("{}/{}-{}-s{}-c{}-{}.json", cfg.outdir, cfg.prop, cfg.build, cfg.seed, chunk, n);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"build\": {},\n \"seed\": {},\n \"tier\": {},\n \"chunk\": {},\n \"case\": {},\n \"operation\": {},\n \"format\": {},\n \"args\": [{}],\n \"mode\": {},\n \"text\": {},\n \"observed\": {}\n}}\n",
        js(&cfg.prop), js(&cfg.build), cfg.seed, js(if cfg.thorough { "thorough" } else { "quick" }), chunk, js(&key),
        js(c.op), js(c.fmt),
        c.args[..c.n as usize].iter().map(|a| format!("\"{:#x}\"", a)).collect::<Vec<_>>().join(", "),
        js(model::MODE_NAMES.get(c.mode as usize).unwrap_or(&"-")),
        text.map_or("null".into(), js),
        js(what)
    );
    let _ = std::fs::write(&path, s);
    println!("VIOLATION property={} replay={}", cfg.prop, path);
    println!("  {} [{} build, seed {}, chunk {}]: {}", trunc(&key, 600), cfg.build, cfg.seed, chunk, trunc(what, 1200));
}
fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

/// A call that will not come back: report from wherever we are and end the process.
fn emergency(what: &str) -> ! {
    let (c, t) = CUR.with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default());
    report(CHUNK.with(|c| c.get()), &c, t.as_deref(), what);
    std::process::exit(1);
}

// ---------------------------------------------------------------- context

const OPS: usize = 40;
const FM: usize = 32;
const CL: usize = 16;
fn cell(op: usize, fmt: usize, mode: usize, cls: usize) -> usize {
    ((op * FM + fmt) * 6 + mode.min(5)) * CL + cls
}

pub struct Ctx {
    pub rng: Rng,
    pub chunk: u64,
    pub thorough: bool,
    pub seed: u64,
    pub build_checked: bool,
    cells: Vec<u64>,
    pub events: u64,
    pub nontrivial: u64,
    pub notes: Vec<(&'static str, u64)>,
    samples: Vec<String>,
    chunk_samples: u32,
}

static SEEN: std::sync::OnceLock<Vec<AtomicU64>> = std::sync::OnceLock::new();
const SEEN_BITS: u32 = 27;

pub fn hash_args(seed: u64, a: &[u128]) -> u64 {
    let mut h = mix(seed);
    for x in a {
        h = mix(h ^ *x as u64);
        h = mix(h ^ (*x >> 64) as u64).wrapping_add(h.rotate_left(17));
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Bracket a call made on a helper thread (panics come back as text, allocations are counted).
pub fn bracket<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    ALLOC_N.with(|c| c.set(0));
    ALLOC_LIVE.with(|c| c.set(0));
    IN_SUT.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(false));
    r.map_err(|_| PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// A number that depends on the chunk and the argument only.
pub fn salt(bits: u128) -> u64 {
    mix(bits as u64 ^ mix((bits >> 64) as u64 ^ CHUNK.with(|c| c.get()).wrapping_mul(0x9e3779b97f4a7c15)))
}
/// Run calls that are not themselves observed; a panic is swallowed.
pub fn quietly<R>(f: impl FnOnce() -> Option<R>) -> Option<R> {
    let was = IN_SUT.with(|c| c.replace(true));
    let n = ALLOC_N.with(|c| c.get());
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(was));
    ALLOC_N.with(|c| c.set(n));
    r.ok().flatten()
}

impl Ctx {
    /// Run one call into the code under test. `None` if it panicked (already reported).
    #[inline]
    pub fn sut<R>(&mut self, c: &Case, f: impl FnOnce() -> R) -> Option<R> {
        match self.sut_raw(c, f) {
            Ok(r) => Some(r),
            Err(msg) => {
                self.panicked(c, &msg);
                None
            }
        }
    }
    #[cold]
    fn panicked(&mut self, c: &Case, msg: &str) {
        self.fail(c, &format!("panicked: {}", msg));
    }
    #[inline(never)]
    fn enter(c: &Case) {
        CUR.with(|cur| cur.borrow_mut().0 = c.clone());
        ALLOC_N.with(|c| c.set(0));
        ALLOC_LIVE.with(|c| c.set(0));
        ALLOC_PEAK.with(|c| c.set(0));
        if let Some(f) = TRACE.get() {
            let t = CUR.with(|c| c.borrow().1.clone());
            let s = format!("{}\n{}\n{}", c.describe(), t.is_some() as u8, t.unwrap_or_default());
            let mut b = vec![0u8; 8];
            b[..4].copy_from_slice(&(s.len() as u32).to_le_bytes());
            b.extend_from_slice(s.as_bytes());
            let _ = f.write_at(&b, 0);
        }
        let slot = &SLOTTAB[SLOT.with(|s| s.get())];
        slot.seq.store(slot.seq.load(Relaxed) + 1, Relaxed);
        slot.busy.store(true, Relaxed);
        IN_SUT.with(|c| c.set(true));
    }
    #[inline(never)]
    fn leave() {
        IN_SUT.with(|c| c.set(false));
        SLOTTAB[SLOT.with(|s| s.get())].busy.store(false, Relaxed);
    }
    /// As `sut`, but a panic is handed back.
    #[inline]
    pub fn sut_raw<R>(&mut self, c: &Case, f: impl FnOnce() -> R) -> Result<R, String> {
        Self::enter(c);
        let r = catch_unwind(AssertUnwindSafe(f));
        Self::leave();
        r.map_err(|_| PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
    }
    /// Attach a string operand to the following calls.
    pub fn text(&mut self, s: &str) {
        CUR.with(|c| {
            let mut c = c.borrow_mut();
            let t = c.1.get_or_insert_with(String::new);
            t.clear();
            t.push_str(s);
        });
    }
    pub fn no_text(&mut self) {
        CUR.with(|c| c.borrow_mut().1 = None);
    }
    pub fn fail(&mut self, c: &Case, what: &str) {
        let t = CUR.with(|c| c.borrow().1.clone());
        report(self.chunk, c, t.as_deref(), what);
    }
    pub fn stopped(&self) -> bool {
        STOP.load(Relaxed)
    }
    /// Count an observed event.
    #[inline]
    pub fn seen(&mut self, op: usize, fmt: u8, mode: u8, cls: model::Cls, nontrivial: bool, key: u64) {
        self.cells[cell(op, fmt as usize, mode as usize, cls as usize)] += 1;
        self.events += 1;
        if nontrivial {
            self.nontrivial += 1;
            let h = mix(key ^ (op as u64) << 56 ^ (fmt as u64) << 48 ^ (mode as u64) << 40) >> (64 - SEEN_BITS);
            let w = &SEEN.get().unwrap()[(h >> 6) as usize];
            let bit = 1u64 << (h & 63);
            if w.load(Relaxed) & bit == 0 {
                w.fetch_or(bit, Relaxed);
            }
        }
    }
    /// Write out a few events in full for the evidence file.
    #[inline]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.chunk_samples > 0 {
            self.chunk_samples -= 1;
            if self.samples.len() < 400 {
                let s = trunc(&f(), 300);
                self.samples.push(s);
            }
        }
    }
    pub fn note(&mut self, name: &'static str, n: u64) {
        for x in &mut self.notes {
            if x.0 == name {
                x.1 += n;
                return;
            }
        }
        self.notes.push((name, n));
    }
    /// Compare an observed (bits, status) with the oracle; count the event.
    #[inline]
    pub fn check(&mut self, op: usize, f: &model::Fmt, c: &Case, got: (u128, u8), want: &model::Out, nontrivial: bool) {
        let wb = model::encode(f, &want.v);
        self.seen(op, f.id, c.mode, want.cls, nontrivial, hash_args(c.n as u64, &c.args[..c.n as usize]));
        self.sample(|| {
            format!("{} -> {:#x} {} [{}]", c.describe(), got.0, crate::fp::st_name(got.1), model::CLS_NAMES[want.cls as usize])
        });
        if got != (wb, want.st) {
            self.fail(
                c,
                &format!(
                    "got {:#x} {}, expected {:#x} {} (class {})",
                    got.0, crate::fp::st_name(got.1), wb, crate::fp::st_name(want.st), model::CLS_NAMES[want.cls as usize]
                ),
            );
        }
    }
}

/// An event is non-trivial when a finite non-zero value was computed (not a special-case lookup).
pub fn nontriv(cls: model::Cls) -> bool {
    use model::Cls::*;
    !matches!(cls, NanProp | Invalid | Special | Inf | ZeroExact)
}

// ---------------------------------------------------------------- running

pub struct Spec {
    pub ops: &'static [&'static str],
    pub rule: &'static str,
    /// Number of chunks of work.
    pub quick: u64,
    pub thorough: u64,
    pub chunk: fn(&mut Ctx),
    /// Coverage that must have been reached, by name; checked on the merged counters.
    pub gate: fn(&Totals) -> Vec<String>,
    /// Extra single-threaded phase before the chunks (may be empty).
    pub before: fn(&mut Ctx),
}
pub fn nothing(_: &mut Ctx) {}
pub fn no_gate(_: &Totals) -> Vec<String> {
    vec![]
}

pub struct Totals {
    pub cells: Vec<u64>,
    pub events: u64,
    pub nontrivial: u64,
    pub notes: Vec<(&'static str, u64)>,
}
impl Totals {
    /// Events of an operation in a format (any mode) with the class.
    pub fn get(&self, op: usize, fmt: u8, cls: model::Cls) -> u64 {
        (0..6).map(|m| self.cells[cell(op, fmt as usize, m, cls as usize)]).sum()
    }
    pub fn mode(&self, op: usize, fmt: u8, mode: u8) -> u64 {
        (0..CL).map(|c| self.cells[cell(op, fmt as usize, mode as usize, c)]).sum()
    }
    pub fn note(&self, n: &str) -> u64 {
        self.notes.iter().filter(|x| x.0 == n).map(|x| x.1).sum()
    }
    /// Every listed class must have been observed for every op x format listed.
    pub fn need(&self, out: &mut Vec<String>, ops: &[usize], fmts: &[u8], classes: &[model::Cls]) {
        for &o in ops {
            for &f in fmts {
                for &c in classes {
                    if self.get(o, f, c) == 0 {
                        out.push(format!("op {} format {} never reached class {}", o, f, model::CLS_NAMES[c as usize]));
                    }
                }
            }
        }
    }
    pub fn need_note(&self, out: &mut Vec<String>, name: &str, n: u64) {
        if self.note(name) < n {
            out.push(format!("counter {} is {}, wanted at least {}", name, self.note(name), n));
        }
    }
}

pub fn run(prop: &'static str, spec: Spec) -> ! {
    let mut cfg = Cfg {
        prop: prop.into(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        threads: 4,
        build: if cfg!(debug_assertions) { "checked".into() } else { "release".into() },
        outdir: ".".into(),
        only_chunk: None,
        cap_s: 0.0,
    };
    let mut part = None;
    let mut bitmap = None;
    let mut known = None;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("argument value");
        match a.as_str() {
            "--seed" => cfg.seed = val().parse().unwrap(),
            "--thorough" => cfg.thorough = true,
            "--quick" => cfg.thorough = false,
            "--threads" => cfg.threads = val().parse().unwrap(),
            "--out" => cfg.outdir = val(),
            "--part" => part = Some(val()),
            "--bitmap" => bitmap = Some(val()),
            "--known" => known = Some(val()),
            "--progress" => {
                let _ = PROGRESS.set(std::fs::File::create(val()).expect("progress file"));
            }
            "--trace" => {
                let _ = TRACE.set(std::fs::File::create(val()).expect("trace file"));
            }
            "--chunk" => cfg.only_chunk = Some(val().parse().unwrap()),
            "--cap" => cfg.cap_s = val().parse().unwrap(),
            _ => panic!("unknown argument {}", a),
        }
    }
    if cfg.cap_s == 0.0 {
        cfg.cap_s = if cfg.thorough { 3600.0 } else { 300.0 };
    }
    let (seed, thorough, threads, build, only, cap) =
        (cfg.seed, cfg.thorough, cfg.threads.min(SLOTS), cfg.build.clone(), cfg.only_chunk, cfg.cap_s);
    if let Some(k) = known {
        if let Ok(t) = std::fs::read_to_string(k) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix(&format!("KNOWN property={} ", prop)) {
                    KNOWN.lock().unwrap().push(r.to_string());
                }
            }
        }
    }
    let _ = std::fs::create_dir_all(&cfg.outdir);
    *CFG.lock().unwrap() = Some(cfg);
    SEEN.get_or_init(|| (0..1usize << (SEEN_BITS - 6)).map(|_| AtomicU64::new(0)).collect());

    std::panic::set_hook(Box::new(|info| {
        let was = IN_SUT.with(|c| c.replace(false));
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if was {
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            let cur = CUR.with(|c| c.try_borrow().map(|c| c.0.describe()).unwrap_or_default());
            eprintln!("HARNESS PANIC: {} at {} (chunk {}, last case {})", msg, loc, CHUNK.with(|c| c.get()), cur);
        }
    }));

    let start = Instant::now();
    let chunks = if thorough { spec.thorough } else { spec.quick };
    // Different builds take different work, so that together they cover more.
    let base = mix(seed ^ crate::run::hash_str(prop)) ^ if build == "checked" { 0x5eed } else { 0 };
    let new_ctx = || Ctx {
        rng: Rng::new(0),
        chunk: 0,
        thorough,
        seed,
        build_checked: build == "checked",
        cells: vec![0; OPS * FM * 6 * CL],
        events: 0,
        nontrivial: 0,
        notes: vec![],
        samples: vec![],
        chunk_samples: 0,
    };
    let merged = Mutex::new(new_ctx());
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let broken = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let work = |slot: usize| {
        let tid = std::fs::read_link("/proc/thread-self")
            .ok()
            .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
            .unwrap_or(0);
        SLOT.with(|s| s.set(slot));
        SLOTTAB[slot].tid.store(tid, SeqCst);
        let mut ctx = new_ctx();
        let go = |ctx: &mut Ctx, c: u64, f: fn(&mut Ctx)| {
            ctx.chunk = c;
            ctx.rng = Rng::new(mix(base ^ mix(c)));
            ctx.chunk_samples = if c % 7 == 0 { 2 } else { 0 };
            CHUNK.with(|x| x.set(c));
            SLOTTAB[slot].chunk.store(c, SeqCst);
            if let Some(f) = PROGRESS.get() {
                let _ = f.write_at(&c.wrapping_add(2).to_le_bytes(), 8 * slot as u64);
            }
            ctx.no_text();
            let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
            if let Some(f) = PROGRESS.get() {
                let _ = f.write_at(&0u64.to_le_bytes(), 8 * slot as u64);
            }
            if r.is_err() {
                broken.store(true, SeqCst);
                STOP.store(true, SeqCst);
            }
        };
        if slot == 0 && only.map_or(true, |o| o == u64::MAX) {
            go(&mut ctx, u64::MAX, spec.before);
        }
        loop {
            if STOP.load(Relaxed) || start.elapsed().as_secs_f64() > cap {
                break;
            }
            let c = next.fetch_add(1, Relaxed);
            if c >= chunks {
                break;
            }
            if only.map_or(false, |o| o != c) {
                continue;
            }
            go(&mut ctx, c, spec.chunk);
            done.fetch_add(1, Relaxed);
        }
        let mut m = merged.lock().unwrap();
        for (a, b) in m.cells.iter_mut().zip(&ctx.cells) {
            *a += b;
        }
        m.events += ctx.events;
        m.nontrivial += ctx.nontrivial;
        for (k, v) in &ctx.notes {
            m.note(k, *v);
        }
        m.samples.append(&mut ctx.samples);
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|i| s.spawn({ let w = &work; move || w(i) })).collect();
        // Watchdog: CPU time spent by a worker inside one single call.
        let fin = &finished;
        let wd = s.spawn(move || {
            let mut last = vec![(0u64, 0u64); threads];
            while !fin.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for i in 0..threads {
                    let (seq, busy, tid) = (SLOTTAB[i].seq.load(SeqCst), SLOTTAB[i].busy.load(SeqCst), SLOTTAB[i].tid.load(SeqCst));
                    let cpu: u64 = std::fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid))
                        .ok()
                        .and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok()))
                        .unwrap_or(0);
                    if !busy || last[i].0 != seq {
                        last[i] = (seq, cpu);
                    } else if cpu.saturating_sub(last[i].1) > 45_000_000_000 {
                        let chunk = SLOTTAB[i].chunk.load(SeqCst);
                        let c = case("(call that does not finish; rerun the chunk)", "-", NOMODE, &[]);
                        report(chunk, &c, None, "a single call used more than 45 s of CPU time");
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            if h.join().is_err() {
                broken.store(true, SeqCst);
            }
        }
        finished.store(true, SeqCst);
        let _ = wd.join();
    });
    let m = merged.into_inner().unwrap();
    let tot = Totals { cells: m.cells, events: m.events, nontrivial: m.nontrivial, notes: m.notes };
    let nv = NVIOL.load(SeqCst);
    let complete = done.load(SeqCst) >= chunks;
    let mut gates = vec![];
    if nv == 0 && only.is_none() && complete {
        gates = (spec.gate)(&tot);
    }
    // Coverage table: op -> format -> class counts.
    let fname = |i: usize| -> String {
        model::BUILTIN.iter().find(|f| f.id as usize == i).map_or(format!("fmt{}", i), |f| f.name.into())
    };
    let mut cov = String::from("{");
    let mut cells_hit = 0;
    for (oi, on) in spec.ops.iter().enumerate() {
        let mut fs = String::new();
        for fi in 0..FM {
            let mut cs = String::new();
            for ci in 0..CL {
                let n: u64 = (0..6).map(|mo| tot.cells[cell(oi, fi, mo, ci)]).sum();
                cells_hit += (0..6).filter(|&mo| tot.cells[cell(oi, fi, mo, ci)] > 0).count();
                if n > 0 {
                    let _ = write!(cs, "{}{}: {}", if cs.is_empty() { "" } else { ", " }, js(model::CLS_NAMES[ci]), n);
                }
            }
            if !cs.is_empty() {
                let _ = write!(fs, "{}{}: {{{}}}", if fs.is_empty() { "" } else { ", " }, js(&fname(fi)), cs);
            }
        }
        if !fs.is_empty() {
            let _ = write!(cov, "{}{}: {{{}}}", if cov.len() == 1 { "" } else { ", " }, js(on), fs);
        }
    }
    cov.push('}');
    let seen = SEEN.get().unwrap();
    let distinct: u64 = seen.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum();
    if let Some(p) = bitmap {
        let mut v = Vec::with_capacity(seen.len() * 8);
        for w in seen {
            v.extend_from_slice(&w.load(Relaxed).to_le_bytes());
        }
        let _ = std::fs::write(p, v);
    }
    let khit = KNOWN_HIT.lock().unwrap();
    if let Some(p) = part {
        let mut samples = m.samples;
        let step = (samples.len() / 10).max(1);
        samples = samples.into_iter().step_by(step).take(10).collect();
        let s = format!(
            "{{\"build\": {}, \"seed\": {}, \"events\": {}, \"nontrivial\": {}, \"distinct\": {}, \"chunks_done\": {}, \"chunks\": {}, \"cells_hit\": {}, \"rule\": {}, \"violations\": {}, \"broken\": {}, \"gates_unmet\": [{}], \"known\": [{}], \"notes\": {{{}}}, \"samples\": [{}], \"table\": {}, \"wall_s\": {:.2}}}\n",
            js(&build), seed, tot.events, tot.nontrivial, distinct, done.load(SeqCst), chunks, cells_hit, js(spec.rule), nv,
            broken.load(SeqCst),
            gates.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            khit.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            tot.notes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
            samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            cov,
            start.elapsed().as_secs_f64()
        );
        std::fs::write(p, s).expect("write part file");
    }
    println!(
        "{} {}: {} events ({} non-trivial, {}+ distinct), {}/{} chunks, {} cells, {:.1} s",
        prop, build, tot.events, tot.nontrivial, distinct, done.load(SeqCst), chunks, cells_hit, start.elapsed().as_secs_f64()
    );
    for g in gates.iter().take(20) {
        eprintln!("coverage gate not met: {}", g);
    }
    let code = if nv > 0 {
        1
    } else if broken.load(SeqCst) || !gates.is_empty() {
        2
    } else {
        0
    };
    std::process::exit(code);
}
