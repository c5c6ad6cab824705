//! E03: the answers do not depend on the machine the library runs on. Every call is made here and
//! on machines with 32-bit pointers and/or the other byte order: WebAssembly, and targets interpreted
//! by Miri, which also watches for undefined behaviour.
use mon::dd;
use mon::fp::*;
use mon::gen;
use mon::model::{self, Cls};
use mon::port::{self, Ans, Req};
use mon::run::*;
use rustc_apfloat::ieee::IeeeFloat;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

/// Target, pointer bytes, first byte of 0x0201 in memory is 1 (little endian) or 2.
const TARGETS: [(&str, u8, bool); 4] = [
    ("powerpc-unknown-linux-gnu", 4, true),
    ("s390x-unknown-linux-gnu", 8, true),
    ("x86_64-unknown-linux-gnu", 8, false),
    ("wasm32-unknown-unknown", 4, false),
];
const WASM: usize = 3;

struct Machine {
    p: Child,
    log: String,
    /// CPU seconds at which the machine is given up, as bits; and whether it was.
    limit: Arc<AtomicU64>,
    hung: Arc<AtomicBool>,
}
/// CPU seconds the process has used, all threads together.
fn cpu_of(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}
extern "C" {
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
thread_local! {
    static M: RefCell<[Option<Machine>; 4]> = const { RefCell::new([None, None, None, None]) };
}
fn start(t: usize) -> Machine {
    let root = std::env::var("MON_ROOT").expect("MON_ROOT");
    let log = format!("{}/target/work-E03/miri-{}-{:?}.err", root, t, std::thread::current().id()).replace(['(', ')'], "");
    let mut cmd = if t == WASM {
        let mut c = Command::new("node");
        c.arg(format!("{}/port/run.mjs", root)).arg(format!("{}/target/wasm/wasm32-unknown-unknown/release/apfloat_port.wasm", root));
        c
    } else {
        let mut c = Command::new("cargo");
        c.args(["miri", "run", "-q", "--offline", "--bin", "apfloat-port-miri", "--target", TARGETS[t].0, "--target-dir"])
            .arg(format!("{}/target/miri", root))
            .current_dir(format!("{}/port", root))
            .env("RUSTUP_TOOLCHAIN", "nightly")
            .env("XDG_CACHE_HOME", format!("{}/target/miri-cache", root))
            .env("RUSTFLAGS", "--cap-lints=warn -Awarnings")
            .env("MIRIFLAGS", if t == 2 { "-Zmiri-disable-isolation" } else { "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmir-opt-level=3" })
            .env_remove("RUSTC_WRAPPER");
        c
    };
    unsafe {
        // ended together with this thread
        cmd.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    let mut p = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(std::fs::File::create(&log).unwrap())
        .spawn()
        .expect("starting a machine");
    let mut b = [0; 2];
    if p.stdout.as_mut().unwrap().read_exact(&mut b).is_err() {
        panic!("the interpreter did not start: {}", std::fs::read_to_string(&log).unwrap_or_default());
    }
    let big = b[1] == u16::from_be_bytes([1, 2]) as u8;
    assert!(b[0] == TARGETS[t].1 && big == TARGETS[t].2, "not the machine it should be");
    let (limit, hung) = (Arc::new(AtomicU64::new(f64::INFINITY.to_bits())), Arc::new(AtomicBool::new(false)));
    let (l, h, pid) = (limit.clone(), hung.clone(), p.id());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        match cpu_of(pid) {
            None => return,
            Some(t) if t > f64::from_bits(l.load(SeqCst)) => {
                h.store(true, SeqCst);
                unsafe { kill(pid as i32, 9) };
                return;
            }
            _ => {}
        }
    });
    Machine { p, log, limit, hung }
}
/// Ask machine `t`; `Err` is what its log says when it gave up.
fn ask(t: usize, q: &[u8], secs: f64) -> Result<Vec<u8>, String> {
    M.with(|m| {
        let slot = &mut m.borrow_mut()[t];
        let c = slot.get_or_insert_with(|| start(t));
        c.limit.store((cpu_of(c.p.id()).unwrap_or(0.0) + secs).to_bits(), SeqCst);
        let mut go = || -> std::io::Result<Vec<u8>> {
            let i = c.p.stdin.as_mut().unwrap();
            i.write_all(&(q.len() as u32).to_le_bytes())?;
            i.write_all(q)?;
            i.flush()?;
            let o = c.p.stdout.as_mut().unwrap();
            let mut n = [0; 4];
            o.read_exact(&mut n)?;
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            o.read_exact(&mut b)?;
            Ok(b)
        };
        let r = go();
        if let Ok(r) = r {
            c.limit.store(f64::INFINITY.to_bits(), SeqCst);
            return Ok(r);
        }
        let mut s = format!("{} {}", c.p.wait().map_or(String::new(), |s| s.to_string()), std::fs::read_to_string(&c.log).unwrap_or_default());
        if c.hung.load(SeqCst) {
            s = format!("HUNG: more than {} s of CPU time on a request answered here in well under one", secs);
        }
        *slot = None;
        Err(s)
    })
}

fn fmt_of(i: u8) -> Option<model::Fmt> {
    Some(match i {
        0..=7 => model::BUILTIN[i as usize],
        9 => <IeeeFloat<C70e10> as Fp>::FMT,
        10 => <IeeeFloat<C128e8> as Fp>::FMT,
        11 => <IeeeFloat<N6e3> as Fp>::FMT,
        12 => <IeeeFloat<C9e5> as Fp>::FMT,
        _ => return None,
    })
}

fn request(ctx: &mut Ctx, fast: bool) -> Req {
    let r = &mut ctx.rng;
    let fmt = r.below(port::FMTS as u64) as u8;
    let mut q = Req { fmt, mode: r.below(5) as u8, ..Req::default() };
    // what is slow under an interpreter is asked less often
    q.op = loop {
        let op = r.below(port::OPS.len() as u64) as u8;
        let slow = !fast && matches!(op, 5 | 6 | 14 | 15);
        if (op != 22 || r.chance(1, 8)) && (!slow || r.chance(1, 4)) && !(op == 24 && fmt == 8) {
            break op;
        }
    };
    let f = fmt_of(fmt);
    let any = |r: &mut mon::rng::Rng| match &f {
        Some(f) => gen::any(r, f),
        None => dd::any(r),
    };
    q.args = [any(r), any(r), any(r)];
    if let (Some(f), true) = (&f, r.chance(7, 8)) {
        match q.op {
            0 | 1 => (q.args[0], q.args[1]) = gen::add_pair(r, f),
            2 => (q.args[0], q.args[1]) = gen::mul_pair(r, f),
            3 => (q.args[0], q.args[1]) = gen::div_pair(r, f),
            4 => (q.args[0], q.args[1], q.args[2]) = gen::fma_triple(r, f),
            7 => q.args[0] = gen::integral_arg(r, f),
            18 if r.bool() => q.args[1] = q.args[0] ^ 1 << r.below(f.bits as u64),
            _ => {}
        }
    }
    if q.op < 5 && f.is_none() {
        (q.args[0], q.args[1]) = dd::pair(r);
    }
    match q.op {
        5 | 6 => {
            if fast && r.bool() {
                if let Some(f) = &f {
                    (q.args[0], q.args[1]) = gen::rem_pair(r, f);
                    return q;
                }
            }
            // near each other: long remainders take minutes when interpreted
            if let Some(f) = &f {
                let e = gen::exponent(r, f);
                let g = r.range(-3, 70);
                let (s, t) = (gen::pattern(r, f.p - 1), gen::pattern(r, f.p - 1));
                let (m, n) = (r.bool(), r.bool());
                if r.chance(7, 8) || f.bits > 70 {
                    q.args[0] = gen::with_exp(f, m, e, s);
                    q.args[1] = gen::with_exp(f, n, (e - g).max(f.emin - 3), t);
                }
            } else {
                q.args[0] = dd::finite_in(r, -40, 40);
                q.args[1] = dd::finite_in(r, -40, 40);
            }
        }
        10 | 11 => {
            q.aux = if r.bool() { [8, 16, 31, 32, 33, 63, 64, 65, 127, 128][r.below(10) as usize] } else { 1 + r.below(128) as u16 };
            if let Some(f) = &f {
                if r.chance(3, 4) {
                    let e = (q.aux as i64 - 1 + r.range(-40, 2)).min(f.emax);
                    let (n, s) = (r.bool(), gen::pattern(r, f.p - 1));
                    q.args[0] = gen::with_exp(f, n, e, s);
                }
            }
        }
        12 | 13 => {
            let g = f.unwrap_or(model::DOUBLE);
            q.args[0] = gen::int_arg(r, &g);
        }
        14 => {
            let g = f.unwrap_or(model::DOUBLE);
            q.text = match r.below(4) {
                2 if fast && r.bool() => {
                    let (mut d, mut e) = gen::boundary_decimal(r, &g);
                    if r.chance(3, 4) {
                        gen::perturb_decimal(r, &mut d, &mut e);
                    }
                    let neg = r.bool();
                    gen::spell_decimal(r, neg, &d, e)
                }
                0 => {
                    let n = 1 + r.below(30);
                    let d: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                    format!("{}.{}e{}", &d[..1], &d[1..], r.range(-40, 40))
                }
                1 => {
                    let n = 1 + r.below(40);
                    let d: String = (0..n).map(|_| b"0123456789abcdef"[r.below(16) as usize] as char).collect();
                    format!("0x{}.{}p{}", &d[..1], &d[1..], r.range(g.emin - 140, g.emax + 3))
                }
                2 => {
                    let (mut d, mut e) = gen::boundary_decimal(r, &g);
                    d.truncate(60);
                    if r.bool() {
                        gen::perturb_decimal(r, &mut d, &mut e);
                        d.truncate(60);
                    }
                    let neg = r.bool();
                    gen::spell_decimal(r, neg, &d, e.clamp(-340, 340))
                }
                _ => {
                    let w = ["inf", "-Infinity", "nan", "snan0x1f", "NaN(12)", "nan0xffffffffffffffffff", "", "+", ".", "1e", "0x", "1e99999999999", "1e-4294967297", "0x1p4294967296", "0x.p1", "0e9223372036854775808", "1e2147483648", "0x1p-2147483649", "1.5f"];
                    w[r.below(w.len() as u64) as usize].to_string()
                }
            };
        }
        15 => {
            q.mode = r.below(5) as u8;
            q.aux = r.below(60) as u16;
            q.aux2 = r.below(60) as u16;
            if fast && r.bool() {
                if r.chance(1, 8) {
                    q.aux = r.below(3000) as u16;
                    q.aux2 = r.below(3000) as u16;
                }
                return q;
            }
            // printing huge exponents is slow
            if r.chance(3, 4) {
                q.args[0] = match &f {
                    Some(f) => {
                        let (n, s) = (r.bool(), gen::pattern(r, f.p - 1));
                        gen::with_exp(f, n, r.range(-60, 130).clamp(f.emin, f.emax), s)
                    }
                    None => dd::finite_in(r, -40, 100),
                };
            } else if fmt == 3 || fmt == 7 {
                q.args[0] = gen::special(r, f.as_ref().unwrap());
                if !q.args[0] & f.unwrap().sig_mask() != 0 {
                    q.args[0] = 1;
                }
            }
            if fmt == 3 || fmt == 7 {
                // the smallest numbers have thousands of digits
                let e = q.args[0] >> f.unwrap().fw() & f.unwrap().exp_mask();
                if e < 15000 || (e > 17500 && e < 0x7fff) {
                    q.args[0] = 0;
                }
            }
        }
        16 => {
            let g = f.unwrap_or(model::DOUBLE);
            q.args[1] = match r.below(4) {
                0 => r.range(-80, 80),
                1 => r.range(2 * g.emin, 2 * g.emax),
                2 => [i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 65536, -65536, 32768][r.below(7) as usize] as i64,
                _ => r.range(-40000, 40000),
            } as u128;
        }
        20 => {
            if let (Some(f), true) = (&f, r.bool()) {
                q.args[0] = gen::with_exp(f, r.bool(), r.range(f.emin, f.emax), 0);
            }
        }
        21 => q.args[0] = r.u128() >> r.below(128),
        24 => {
            q.aux = r.below(4) as u16;
            let t = [model::DOUBLE, model::HALF, model::X87, model::QUAD][q.aux as usize];
            q.args[0] = gen::convert_arg(r, &f.unwrap(), &t);
        }
        _ => {}
    }
    q
}

fn case_of(t: usize, q: &Req) -> Case {
    let names = ["Half", "Single", "Double", "Quad", "BFloat", "Float8E5M2", "Float8E4M3FN", "X87", "DoubleDouble", "70:10", "128:8", "6:3", "9:5"];
    let _ = t;
    case(port::OPS[q.op as usize], names[q.fmt as usize], q.mode, &[q.args[0], q.args[1], q.args[2], (q.aux as u128) << 16 | q.aux2 as u128])
}

fn chunk(ctx: &mut Ctx) {
    // three of eight chunks go to an interpreter
    let t = (ctx.chunk % 8).min(3) as usize;
    let mut q: Vec<(Req, Ans)> = vec![];
    let mut bytes = vec![];
    for _ in 0..if t == WASM { 3000 } else { 40 } {
        let r = request(ctx, t == WASM);
        let c = case_of(t, &r);
        ctx.text(&r.text);
        let Some(a) = ctx.sut(&c, || port::exec(&r)) else { continue };
        r.put(&mut bytes);
        q.push((r, a));
    }
    ctx.no_text();
    let b = match ask(t, &bytes, 60.0) {
        Ok(b) => b,
        Err(log) => {
            // one by one, to find the call
            if !log.contains("Undefined Behavior") && !log.starts_with("HUNG") {
                panic!("the interpreter for {} stopped: {}", TARGETS[t].0, log);
            }
            for (r, _) in &q {
                let mut one = vec![];
                r.put(&mut one);
                if let Err(e) = ask(t, &one, 30.0) {
                    let at = e.find("error:").unwrap_or(0);
                    ctx.text(&r.text);
                    ctx.fail(&case_of(t, r), &format!("on {}: {}", TARGETS[t].0, e[at..].chars().take(600).collect::<String>()));
                    if e.starts_with("HUNG") {
                        // the others would wait as long
                        std::process::exit(1);
                    }
                    return;
                }
            }
            panic!("the interpreter for {} stopped once: {}", TARGETS[t].0, log);
        }
    };
    let mut b = &b[..];
    for (r, a) in &q {
        let Some(x) = Ans::get(&mut b) else { panic!("short answer from {}", TARGETS[t].0) };
        let cls = if a.1.is_empty() { Cls::Exact } else { Cls::Special };
        ctx.seen(r.op as usize, r.fmt, r.mode, cls, true, hash_args(t as u64 ^ hash_str(&r.text), &r.args));
        let c = case_of(t, r);
        ctx.sample(|| format!("{} {:?} on {} -> {:x?}", c.describe(), r.text, TARGETS[t].0, x));
        if x != *a {
            ctx.text(&r.text);
            ctx.fail(&c, &format!("on {} the answer is {:x?}, on this machine {:x?}", TARGETS[t].0, x, a));
            ctx.no_text();
        }
    }
    ctx.note(["calls on a 32-bit big-endian machine", "calls on a 64-bit big-endian machine", "calls on a 64-bit little-endian machine with aliasing checks", "calls on a 32-bit little-endian machine"][t], q.len() as u64);
}

fn gate(t: &Totals) -> Vec<String> {
    let mut v = vec![];
    for op in 0..26 {
        for f in 0..port::FMTS as u8 {
            if !(op == 24 && f == 8) && op != 22 && t.get(op, f, Cls::Exact) + t.get(op, f, Cls::Special) == 0 {
                v.push(format!("{} in format {} never observed", port::OPS[op], f));
            }
        }
    }
    v
}

fn main() {
    run("E03", Spec {
        ops: &port::OPS,
        rule: "an event is one call made on this machine and again on another one (WebAssembly: 32-bit little-endian; interpreted by Miri: 32-bit big-endian, 64-bit big-endian, and 64-bit little-endian with aliasing checks), whose complete answers - bits, status, further outputs, text, panics - were compared; the interpreter also stops at undefined behaviour; every event counts as non-trivial",
        quick: 400,
        thorough: 60_000,
        chunk,
        gate,
        before: nothing,
    })
}
