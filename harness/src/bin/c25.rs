//! C25: results are deterministic, host-independent and free of side effects.
use mon::fp::*;
use mon::grammar::{self, P};
use mon::model::{self, Cls};
use mon::ops::{self, *};
use mon::rng::{mix, Rng};
use mon::run::*;
use mon::{by_fmt, gen};
use rustc_apfloat::ppc::DoubleDouble;
use std::sync::{Barrier, OnceLock};

/// Host floating-point environment: MXCSR and the x87 control and status words.
#[cfg(target_arch = "x86_64")]
mod host {
    use std::arch::asm;
    pub fn get() -> (u32, u16, u16) {
        let (mut m, mut cw, mut sw) = (0u32, 0u16, 0u16);
        unsafe {
            asm!("stmxcsr [{0}]", "fnstcw [{1}]", "fnstsw [{2}]", in(reg) &mut m, in(reg) &mut cw, in(reg) &mut sw);
        }
        (m, cw, sw)
    }
    pub fn set(m: u32, cw: u16) {
        unsafe {
            asm!("fnclex", "ldmxcsr [{0}]", "fldcw [{1}]", in(reg) &m, in(reg) &cw);
        }
    }
}
#[cfg(not(target_arch = "x86_64"))]
mod host {
    pub fn get() -> (u32, u16, u16) {
        (0, 0, 0)
    }
    pub fn set(_: u32, _: u16) {}
}
const MXCSR_DEFAULT: u32 = 0x1f80;
const CW_DEFAULT: u16 = 0x37f;

#[derive(Clone)]
struct Job {
    fmt: u64, // 8 = double-double
    op: usize,
    a: [u128; 3],
    n: u128,
    mode: u8,
    s: String,
}
/// What one call answered. The text of a panic is an answer, too.
#[derive(Clone, PartialEq, Debug)]
enum Ans {
    Val(u128, u32, u128),
    Panic,
}

fn call(j: &Job) -> (u128, u32, u128) {
    fn go<T: Float + Conv>(j: &Job) -> (u128, u32, u128) {
        let g = Args { a: T::from_bits(j.a[0]), b: T::from_bits(j.a[1]), c: T::from_bits(j.a[2]), n: j.n, mode: j.mode };
        let (v, st, x) = ops::sut(j.op, &g, &j.s);
        (v.to_bits(), st, x)
    }
    if j.fmt == 8 {
        go::<DoubleDouble>(j)
    } else {
        by_fmt!(j.fmt, T => go::<T>(j))
    }
}
fn ans(r: Result<(u128, u32, u128), String>) -> Ans {
    match r {
        Ok(t) => Ans::Val(t.0, t.1, t.2),
        Err(_) => Ans::Panic,
    }
}
fn digest(h: u64, a: &Ans) -> u64 {
    match a {
        Ans::Val(b, s, x) => hash_args(h, &[*b, *s as u128, *x]),
        Ans::Panic => mix(h ^ 0xdead),
    }
}

fn dd(r: &mut Rng) -> u128 {
    let d = &model::DOUBLE;
    let hi = gen::any(r, d);
    let lo = match model::decode(d, hi) {
        v @ model::V::Fin { .. } if r.chance(3, 4) => {
            let e = v.ilogb() - 54;
            if e > d.qmin() {
                gen::finite_in(r, d, d.qmin().max(e - 60), e)
            } else {
                0
            }
        }
        _ => 0,
    };
    hi | lo << 64
}

fn job(r: &mut Rng) -> Job {
    let fmt = r.below(NB + 1);
    let f = model::BUILTIN[if fmt == 8 { 2 } else { fmt as usize }];
    let op = r.below(COUNT as u64) as usize;
    let mode = r.below(5) as u8;
    let mut a = [0u128; 3];
    if fmt == 8 {
        for x in a.iter_mut() {
            *x = dd(r);
        }
    } else {
        let t = match op {
            ADD | SUB => { let p = gen::add_pair(r, &f); (p.0, p.1, 0) }
            MUL => { let p = gen::mul_pair(r, &f); (p.0, p.1, 0) }
            DIV => { let p = gen::div_pair(r, &f); (p.0, p.1, 0) }
            FMA => gen::fma_triple(r, &f),
            FMOD | REM => { let p = gen::rem_pair(r, &f); (p.0, p.1, 0) }
            RTI => (gen::integral_arg(r, &f), 0, 0),
            _ => (gen::any(r, &f), gen::any(r, &f), gen::any(r, &f)),
        };
        a = [t.0, t.1, t.2];
    }
    let mut s = String::new();
    let n = match op {
        SCALBN => r.range(-2200, 2200) as i32 as u32 as u128,
        FROM_U | FROM_I => gen::int_arg(r, &f),
        PARSE => {
            s = if r.bool() {
                grammar::string(r)
            } else {
                let (mut d, mut e) = gen::boundary_decimal(r, &f);
                gen::perturb_decimal(r, &mut d, &mut e);
                let neg = r.bool();
                gen::spell_decimal(r, neg, &d, e)
            };
            0
        }
        TEXT => {
            let hi = a[0] & if fmt == 8 { u64::MAX as u128 } else { !0 };
            if text_heavy(&f, hi) {
                // keep printing cheap
                a[0] = if fmt == 8 { gen::finite_in(r, &f, -300, 300) } else { gen::finite_in(r, &f, -300, 300) };
            }
            r.u64() as u128
        }
        _ => r.u128(),
    };
    Job { fmt, op, a, n, mode, s }
}

/// A call that something keyed on part of its arguments could mistake for `j`.
fn relative(r: &mut Rng, j: &Job) -> Job {
    let mut k = j.clone();
    match r.below(4) {
        0 | 1 => k.mode = (k.mode + 1 + r.below(4) as u8) % 5,
        2 => match k.op {
            PARSE if r.bool() => k.s = format!("-{}", k.s),
            PARSE | TEXT => k.mode = (k.mode + 1 + r.below(4) as u8) % 5,
            SCALBN | FROM_U | FROM_I | TO_U | TO_I | CONVERT => k.n ^= 1 << r.below(8),
            _ => {
                let f = model::BUILTIN[if k.fmt == 8 { 2 } else { k.fmt as usize }];
                let i = r.below(3) as usize;
                k.a[i] ^= 1 << if r.bool() { f.bits as u64 - 1 } else { r.below(f.p as u64 - 1) };
            }
        },
        _ => match k.op {
            // (texts and integers mean something in every format)
            PARSE | FROM_U | FROM_I => k.fmt = r.below(NB + 1),
            TEXT => k.n = k.n.wrapping_add(1 << (8 * r.below(3))),
            _ => k.op = r.below(TEXT as u64) as usize,
        },
    }
    if k.op == SCALBN {
        k.n = k.n as i32 as u32 as u128;
    }
    k
}

fn name(j: &Job) -> &'static str {
    if j.fmt == 8 {
        "DoubleDouble"
    } else {
        model::BUILTIN[j.fmt as usize].name
    }
}
fn jcase(j: &Job) -> Case {
    case(ops::NAMES[j.op], name(j), j.mode, &[j.a[0], j.a[1], j.a[2], j.n])
}

/// May this call allocate?
fn may_allocate(j: &Job) -> bool {
    match j.op {
        TEXT => true,
        PARSE => matches!(grammar::parse(&j.s), P::Dec { .. } | P::Reject),
        _ => false,
    }
}

static FIRST: OnceLock<Vec<Ans>> = OnceLock::new();
fn fixed_batch() -> Vec<Job> {
    let mut r = Rng::new(0xf1f1);
    (0..400).map(|_| job(&mut r)).collect()
}
fn before(ctx: &mut Ctx) {
    // The very first calls of the process; repeated at the end of many chunks.
    let mut v = vec![];
    for j in fixed_batch() {
        v.push(ans(ctx.sut_raw(&jcase(&j), || call(&j))));
    }
    let _ = FIRST.set(v);
}

fn chunk(ctx: &mut Ctx) {
    // The same work in every build and on every run of a seed: the digests must agree.
    let mut r = Rng::new(mix(ctx.seed ^ mix(ctx.chunk ^ 0xc25)));
    // A quarter of the calls are followed by close relatives: the same operands or text in
    // another mode, with one operand changed, or in another format.
    let mut jobs: Vec<Job> = vec![];
    while jobs.len() < 170 {
        let j = job(&mut r);
        jobs.push(j.clone());
        if r.chance(1, 4) {
            for _ in 0..1 + r.below(3) {
                jobs.push(relative(&mut r, &j));
            }
        }
    }
    let mut base = vec![];
    let mut h = 0u64;
    for j in &jobs {
        let c = jcase(j);
        ctx.text(&j.s);
        let a = ans(ctx.sut_raw(&c, || call(j)));
        let n = allocs_in_call();
        ctx.seen(j.op, j.fmt as u8, NOMODE, Cls::Special, true, hash_args(j.op as u64, &[j.a[0], j.a[1], j.n]));
        ctx.sample(|| format!("{} -> {:x?} ({} allocations)", c.describe(), a, n));
        if a != Ans::Panic {
            if n > 0 && !may_allocate(j) {
                ctx.fail(&c, &format!("allocated memory {} times", n));
            } else if n > 0 {
                ctx.note("calls that may and did allocate", 1);
            } else {
                ctx.note("calls observed not to allocate", 1);
            }
        } else {
            ctx.note("panics (compared as answers)", 1);
        }
        h = digest(h, &a);
        base.push(a);
    }
    ctx.note("xdigest", h & ((1 << 40) - 1));
    let differs = |ctx: &mut Ctx, i: usize, got: &Ans, how: &str| {
        ctx.text(&jobs[i].s);
        ctx.fail(&jcase(&jobs[i]), &format!("{:x?} at first, {:x?} {}", base[i], got, how));
    };
    // Other orders.
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    for pass in 0..3 {
        if pass == 0 {
            order.reverse();
        }
        for i in (1..if pass == 0 { 1 } else { order.len() }).rev() {
            let k = ctx.rng.below(i as u64 + 1) as usize;
            order.swap(i, k);
        }
        for &i in &order {
            let a = ans(ctx.sut_raw(&jcase(&jobs[i]), || call(&jobs[i])));
            ctx.note("permuted repeats", 1);
            if a != base[i] {
                differs(ctx, i, &a, ["when repeated in reverse order", "when repeated in another order", "when repeated in a third order"][pass]);
            }
        }
    }
    // Host floating-point settings. Flags raised by the call, or settings it changed, are side effects.
    for i in 0..jobs.len() {
        let rc = ctx.rng.below(4) as u32;
        let ftz = ctx.rng.bool();
        let daz = ctx.rng.bool();
        let sticky = if ctx.rng.chance(1, 4) { 0x3f } else { 0 };
        let m = MXCSR_DEFAULT | rc << 13 | (ftz as u32) << 15 | (daz as u32) << 6 | sticky;
        let cw = CW_DEFAULT & !0xf00 | (ctx.rng.below(4) as u16) << 10 | [0u16, 2, 3][ctx.rng.below(3) as usize] << 8;
        let c = jcase(&jobs[i]);
        let j = &jobs[i];
        let r = ctx.sut_raw(&c, || {
            host::set(m, cw);
            let before = host::get();
            let r = call(j);
            let after = host::get();
            host::set(MXCSR_DEFAULT, CW_DEFAULT);
            (r, before, after)
        });
        host::set(MXCSR_DEFAULT, CW_DEFAULT);
        let (a, fpe) = match r {
            Ok((r, b, a)) => (Ans::Val(r.0, r.1, r.2), Some((b, a))),
            Err(_) => (Ans::Panic, None),
        };
        ctx.note("host FP settings tried", 1);
        if a != base[i] {
            differs(ctx, i, &a, &format!("under host settings MXCSR {:#x} x87 control word {:#x}", m, cw));
        }
        if let Some((b, af)) = fpe {
            if b != af {
                ctx.fail(&c, &format!("host floating-point state (MXCSR, x87 control, status) was {:x?}, is {:x?} after the call", b, af));
            }
        }
    }
    // Threads, all running the batch at once in their own order.
    if ctx.chunk % 8 == 0 {
        let n = 3;
        let bar = Barrier::new(n);
        let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
        let res: Vec<Vec<(usize, Ans)>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&sd| {
                    let (jobs, bar) = (&jobs, &bar);
                    s.spawn(move || {
                        let mut r = Rng::new(sd);
                        let mut order: Vec<usize> = (0..jobs.len()).collect();
                        for i in (1..order.len()).rev() {
                            order.swap(i, r.below(i as u64 + 1) as usize);
                        }
                        bar.wait();
                        order
                            .into_iter()
                            .map(|i| {
                                if r.chance(1, 16) {
                                    std::thread::yield_now();
                                }
                                (i, ans(bracket(|| call(&jobs[i]))))
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("helper thread")).collect()
        });
        for v in res {
            for (i, a) in v {
                ctx.note("calls on racing threads", 1);
                if a != base[i] {
                    differs(ctx, i, &a, "on another thread");
                }
            }
        }
    }
    // The first calls of the process, again.
    if ctx.chunk % 16 == 3 {
        if let Some(first) = FIRST.get() {
            for (j, want) in fixed_batch().iter().zip(first) {
                ctx.text(&j.s);
                let a = ans(ctx.sut_raw(&jcase(j), || call(j)));
                ctx.note("first calls repeated", 1);
                if a != *want {
                    ctx.fail(&jcase(j), &format!("{:x?} at the start of the process, {:x?} now", want, a));
                }
            }
        }
    }
    ctx.no_text();
}

fn gate(t: &Totals) -> Vec<String> {
    let mut v = vec![];
    for op in 0..COUNT {
        for f in 0..9 {
            if t.mode(op, f, 5) == 0 {
                v.push(format!("{} never ran in format {}", ops::NAMES[op], f));
            }
        }
    }
    t.need_note(&mut v, "host FP settings tried", 50_000);
    t.need_note(&mut v, "calls on racing threads", 20_000);
    t.need_note(&mut v, "first calls repeated", 400);
    t.need_note(&mut v, "calls that may and did allocate", 500);
    v
}

fn main() {
    run("C25", Spec {
        ops: ops::NAMES,
        rule: "an event is one call of a mixed batch over all nine formats; a quarter are followed by close relatives (other mode, format, operand bit or sign, same text); it is repeated in three other orders, under a random host floating-point environment (rounding, flush-to-zero, denormals-are-zero, preset sticky flags, x87 precision and rounding; the registers are read back after each call), on three racing threads, and at the start and the end of the process, with every answer compared; allocations are counted per call; batch digests are compared between the optimised and the overflow-checked build; every event counts as non-trivial",
        quick: 9600,
        thorough: 400_000,
        chunk,
        gate,
        before,
    })
}
