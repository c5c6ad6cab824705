//! E01: text conversion needs memory, stack and time only in proportion to the text.
use mon::dd;
use mon::fp::*;
use mon::model::Cls;
use mon::rng::Rng;
use mon::run::*;
use mon::{by_fmt_dd, gen, model};
use std::fmt::Write as _;

/// Counts what is written and keeps nothing.
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

const STACK: usize = 24 << 10;
fn name(id: u64) -> &'static str {
    if id == 8 { dd::NAME } else { model::BUILTIN[id as usize].name }
}
fn slot(id: u64) -> u8 {
    if id == 8 { dd::ID } else { id as u8 }
}

struct Use {
    stack: usize,
    peak: u64,
    left: i64,
    cpu: f64,
}
fn metered<R>(ctx: &mut Ctx, c: &Case, deep: bool, f: impl FnOnce() -> R) -> Option<(R, Use)> {
    let t = cpu_s();
    let (r, stack) = if deep { stack_of(|| ctx.sut(c, f)) } else { (ctx.sut(c, f), 0) };
    let cpu = cpu_s() - t;
    let (peak, left) = heap_in_call();
    Some((r?, Use { stack, peak, left, cpu }))
}
fn judge(ctx: &mut Ctx, c: &Case, u: &Use, n: usize, heap: u64, secs: f64) {
    if u.peak > heap {
        ctx.fail(c, &format!("{} bytes held at once, the bound for {} characters is {}", u.peak, n, heap));
    }
    if u.left > 0 {
        ctx.fail(c, &format!("{} bytes still held when the call was over", u.left));
    }
    if u.stack > STACK {
        ctx.fail(c, &format!("{} bytes of stack, the bound is {}", u.stack, STACK));
    }
    if u.cpu > secs {
        ctx.fail(c, &format!("{:.3} s of CPU time, the bound for {} characters is {:.3} s", u.cpu, n, secs));
    }
    ctx.note("stack: calls measured", (u.stack > 0) as u64);
    ctx.note(match u.stack { 0..=4096 => "stack: up to 4 KiB", 4097..=8192 => "stack: up to 8 KiB", 8193..=16384 => "stack: up to 16 KiB", _ => "stack: above 16 KiB" }, (u.stack > 0) as u64);
    ctx.note(match u.peak { 0 => "heap: none", 1..=1024 => "heap: up to 1 KiB", 1025..=8192 => "heap: up to 8 KiB", 8193..=65536 => "heap: up to 64 KiB", _ => "heap: above 64 KiB" }, 1);
    ctx.note("heap: bytes at peak, summed", u.peak);
    ctx.note("CPU microseconds in all", (u.cpu * 1e6) as u64);
    if std::env::var("E01_DEV").is_ok() && (u.peak as f64 > 0.0) {
        eprintln!("DEV {} n {} peak {} stack {} cpu {:.4} bound {} {}", c.describe(), n, u.peak, u.stack, u.cpu, heap, secs);
    }
}

fn digits(r: &mut Rng, n: usize) -> String {
    let k = r.below(4);
    (0..n).map(|i| match k {
        0 => '9',
        1 => if i == 0 || i + 1 == n { '1' } else { '0' },
        2 => (b'0' + (i % 10) as u8) as char,
        _ => (b'0' + r.below(10) as u8) as char,
    }).collect()
}
/// An exponent that decides nothing, everything, or is beyond any integer; `top` is the
/// decimal exponent of the digits alone.
fn exponent(r: &mut Rng, top: i64) -> String {
    match r.below(14) {
        0 => String::new(),
        1 => format!("{}", r.range(-400, 400)),
        2..=4 => format!("{}", -top + r.range(-40, 40)),
        5 => format!("{}", -top + r.range(-400, 400)),
        6 => format!("{}", -top + r.range(-5200, 5200)),
        7 => format!("{}", r.range(-40_000, 40_000)),
        8 => format!("{}", (1i64 << r.below(33)) * if r.bool() { 1 } else { -1 }),
        9 => format!("{}", i32::MAX as i64 + r.range(-2, 2)),
        10 => format!("{}", i32::MIN as i64 + r.range(-2, 2)),
        11 => format!("{}{}", if r.bool() { "-" } else { "" }, "9".repeat(1 + r.below(400) as usize)),
        12 => format!("-{}", "0".repeat(r.below(300) as usize) + "7"),
        _ => format!("{}", r.u64() as i64),
    }
}
/// (text, whether it is decimal)
fn text(r: &mut Rng, n: usize) -> (String, bool) {
    let sign = ["", "-", "+"][r.below(3) as usize];
    let (body, top) = match r.below(5) {
        0 => (digits(r, n), n),
        1 => (format!("0.{}{}", "0".repeat(n / 2), digits(r, n - n / 2)), 0usize.wrapping_sub(n / 2)),
        2 => (format!("{}{}", digits(r, n - n / 2), "0".repeat(n / 2)), n),
        3 => {
            let k = r.below(n as u64 + 1) as usize;
            (format!("{}.{}", digits(r, k), digits(r, n - k + 1)), k)
        }
        _ => (format!("{}.{}", "0".repeat(n / 3), digits(r, 1 + n / 2)), 0),
    };
    let e = exponent(r, top as i64);
    match r.below(10) {
        0 | 1 => {
            let e = if e.is_empty() { "0".to_string() } else { e };
            (format!("{}0x{}p{}", sign, body.replace('7', "d"), e), false)
        }
        2 => {
            // malformed late
            let bad = ["", ".", "e", "e+", "x", "e5.", "p3", " ", "\u{e9}", "-", "nan", "inf"][r.below(12) as usize];
            (format!("{}{}e{}{}", sign, body, e, bad), true)
        }
        3 => {
            let w = ["nan(", "NaN", "snan(0x", "inf", "Infinity", "nan0x", "sNaN(", "0x", "e", ".", "-.", "0x.p"][r.below(12) as usize];
            (format!("{}{}{})", sign, w, digits(r, n)), true)
        }
        _ if e.is_empty() => (format!("{}{}", sign, body), true),
        _ => (format!("{}{}{}{}", sign, body, if r.bool() { "e" } else { "E" }, e), true),
    }
}

/// Texts that are decided while they are read, however long they are.
fn easy(r: &mut Rng, n: usize) -> (String, bool) {
    let z = "0".repeat(n);
    let d = (1 + r.below(30)) as usize;
    let d = digits(r, d);
    let big = digits(r, n);
    match r.below(12) {
        0 => (z, true),
        1 => (format!("{}.{}{}", z, z, d), true),
        2 => (format!("-0.{}{}e{}", z, d, n), true),
        3 => (format!("{}{}e-{}", d, z, n), true),
        4 => (format!("{}.{}e-{}", d, z, big), true),
        5 => (format!("{}e{}{}", d, z, r.below(400)), true),
        6 => (format!("{}e-{}{}x", d, z, big), true),
        7 => (format!("0x{}.{}{}p{}", z, z, d, 4 * n), false),
        8 => (format!("0x{}p-{}", big, 4 * n), false),
        9 => (format!("0x{}.{}p-{}", d, big, z), false),
        10 => (format!("{}{}.e5.{}", d, z, big), true),
        _ => (format!("{}e-{}", big, 2 * n + 6000), true),
    }
}

/// Texts that only their last digit tells from a tie or from a value of the format.
fn close(r: &mut Rng, f: &model::Fmt, n: usize) -> (String, bool) {
    let (mut d, mut e) = loop {
        let (d, e) = gen::boundary_decimal(r, f);
        if d.len() < 900 && d != b"0" {
            break (d, e);
        }
    };
    let z = n.saturating_sub(d.len() + 8);
    match r.below(3) {
        0 => {
            d.extend(std::iter::repeat(b'0').take(z));
            d.push(b'1' + r.below(9) as u8);
        }
        1 => {
            if let Some(i) = d.iter().rposition(|&c| c != b'0') {
                d[i] -= 1;
                d[i + 1..].fill(b'9');
            }
            d.extend(std::iter::repeat(b'9').take(z));
            d.push(b'1' + r.below(9) as u8);
        }
        _ => d.extend(std::iter::repeat(b'0').take(z + 1)),
    }
    e -= z as i64 + 1;
    let neg = r.bool();
    (gen::spell_decimal(r, neg, &d, e), true)
}

fn parse(ctx: &mut Ctx, id: u64, n: usize, kind: u8) {
    let f = model::BUILTIN[if id == 8 { 2 } else { id as usize }];
    let (s, decimal) = match kind {
        2 => easy(&mut ctx.rng, n),
        3 => close(&mut ctx.rng, &f, n),
        _ => text(&mut ctx.rng, n),
    };
    let mode = ctx.rng.below(5) as u8;
    let deep = kind > 0 || ctx.rng.chance(1, 4);
    let c = case("from_str_r", name(id), mode, &[s.len() as u128]);
    ctx.text(&s);
    let l = s.len();
    let r = by_fmt_dd!(id, T => metered(ctx, &c, deep, || T::from_str_r(&s, rm(mode)).is_ok()));
    let Some((ok, u)) = r else { return };
    ctx.seen(0, slot(id), mode, if !ok { Cls::Invalid } else if decimal { Cls::RoundUp } else { Cls::Exact }, true, hash_str(&s));
    if l < 200 {
        ctx.sample(|| format!("{} {:?} -> {} bytes, {} of stack", c.describe(), s, u.peak, u.stack));
    }
    let heap = (32 << 10) + 8 * l as u64;
    let secs = 0.1 + 10e-9 * (l * l) as f64;
    judge(ctx, &c, &u, l, heap, secs);
    ctx.no_text();
}

fn print(ctx: &mut Ctx, id: u64) {
    let r = &mut ctx.rng;
    let f = model::BUILTIN[if id == 8 { 2 } else { id as usize }];
    let a = match r.below(5) {
        0 => gen::any(r, &f),
        1 => gen::integral_arg(r, &f),
        2 if r.chance(1, 8) || f.emax < 5000 => gen::finite(r, &f),
        _ => gen::finite_in(r, &f, -400, 400),
    };
    let a = if id == 8 { dd::join(a, dd::low_for(r, a)) } else { a };
    let size = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => r.below(40),
        2 => r.below(400),
        3 => r.below(6000),
        4 => r.below(65536),
        _ => 65535 - r.below(3),
    } as usize;
    let p = if r.bool() { Some(size(r)) } else { None };
    let w = if r.bool() { Some(size(r)) } else { None };
    let alt = r.bool();
    let deep = r.chance(1, 4);
    let sp = |x: Option<usize>| x.map_or(0, |x| 1 + x as u128);
    let c = case("display", name(id), NOMODE, &[a, sp(p), sp(w), alt as u128]);
    let got = by_fmt_dd!(id, T => {
        let x = T::from_bits(a);
        metered(ctx, &c, deep, || {
            let mut o = Sink(0);
            let k = match (p, w, alt) {
                (None, None, false) => write!(o, "{}", x),
                (None, None, true) => write!(o, "{:#}", x),
                (None, Some(w), false) => write!(o, "{:1$}", x, w),
                (None, Some(w), true) => write!(o, "{:#1$}", x, w),
                (Some(p), None, false) => write!(o, "{:.1$}", x, p),
                (Some(p), None, true) => write!(o, "{:#.1$}", x, p),
                (Some(p), Some(w), false) => write!(o, "{:1$.2$}", x, w, p),
                (Some(p), Some(w), true) => write!(o, "{:#1$.2$}", x, w, p),
            };
            (o.0, k.is_ok())
        })
    });
    let Some(((n, ok), u)) = got else { return };
    ctx.seen(1, slot(id), NOMODE, if p.is_some() { Cls::RoundUp } else { Cls::Exact }, true, hash_args(sp(p) as u64, &c.args));
    ctx.sample(|| format!("{} -> {} characters, {} bytes, {} of stack", c.describe(), n, u.peak, u.stack));
    if !ok {
        ctx.fail(&c, "printing failed though the sink takes everything");
    }
    let asked = p.unwrap_or(0) + w.unwrap_or(0);
    if n > 20_100 + 2 * asked {
        ctx.fail(&c, &format!("{} characters printed", n));
    }
    judge(ctx, &c, &u, n, (64 << 10) + 8 * asked as u64, 2.0);
}

fn chunk(ctx: &mut Ctx) {
    let k = ctx.chunk;
    let id = k % 9;
    // now and then a long one: one of each kind of length per format
    if k < 9 * 24 {
        let n = [20_000, 10_000, 6_000, 3_000, 15_000, 8_000][(k / 9 % 6) as usize];
        for _ in 0..8 {
            let n = 1usize << (8 + ctx.rng.below(11));
            let n = n + ctx.rng.below(n as u64) as usize / 2;
            parse(ctx, id, n, 2);
        }
        parse(ctx, id, n, 1);
        parse(ctx, id, n, 3);
        return;
    }
    for _ in 0..40 {
        let r = &mut ctx.rng;
        let n = match r.below(12) {
            0..=3 => 1 + r.below(20),
            4..=7 => 1 + r.below(120),
            8 | 9 => 1 + r.below(400),
            10 => 1 + r.below(1200),
            _ => 1 + r.below(2500),
        } as usize;
        parse(ctx, id, n, 0);
        if ctx.rng.chance(1, 4) {
            parse(ctx, id, n, 3);
        }
    }
    for _ in 0..30 {
        print(ctx, id);
    }
}

fn gate(t: &Totals) -> Vec<String> {
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7, dd::ID];
    t.need(&mut v, &[0], &all, &[Cls::Invalid, Cls::RoundUp, Cls::Exact]);
    t.need(&mut v, &[1], &all, &[Cls::RoundUp, Cls::Exact]);
    t.need_note(&mut v, "stack: calls measured", 1000);
    t.need_note(&mut v, "heap: up to 8 KiB", 1000);
    v
}

fn main() {
    run("E01", Spec {
        ops: &["from_str_r", "display"],
        rule: "an event is one parse of a generated text (up to 20000 digits, some told from a tie only by the last; up to 800000 characters where they decide nothing, exponents up to 400 digits, malformed tails) or one print (width and precision up to 65535) with its heap peak, heap balance, stack depth (a quarter, by painting) and thread CPU time metered against bounds in the length of the text; every event counts as non-trivial",
        quick: 9 * 450,
        thorough: 9 * 20_000,
        chunk,
        gate,
        before: nothing,
    })
}
