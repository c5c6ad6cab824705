//! E05: text output treats its sink and the other formatting flags correctly.
use mon::by_fmt_dd;
use mon::dd;
use mon::fp::*;
use mon::model::{self, Cls, F106, V};
use mon::ops::render;
use mon::run::*;
use mon::{big::Big, gen};
use std::fmt::{Debug, Display};

const PLAIN: u8 = 0;
const FLAGS: u8 = 1;
const FAIL: u8 = 2;
const NESTED: u8 = 3;
const DEBUG: u8 = 4;

/// Takes `room` bytes, then fails; counts the calls that come after the failure.
struct Short {
    room: usize,
    got: Vec<u8>,
    failed: bool,
    late: usize,
}
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.late += 1;
            return Ok(());
        }
        let n = s.len().min(self.room - self.got.len());
        self.got.extend_from_slice(&s.as_bytes()[..n]);
        if n < s.len() {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
fn put<T: Display>(o: &mut impl std::fmt::Write, x: &T, p: Option<usize>, w: Option<usize>, alt: bool) -> std::fmt::Result {
    match (p, w, alt) {
        (None, None, false) => write!(o, "{}", x),
        (None, None, true) => write!(o, "{:#}", x),
        (None, Some(w), false) => write!(o, "{:1$}", x, w),
        (None, Some(w), true) => write!(o, "{:#1$}", x, w),
        (Some(p), None, false) => write!(o, "{:.1$}", x, p),
        (Some(p), None, true) => write!(o, "{:#.1$}", x, p),
        (Some(p), Some(w), false) => write!(o, "{:1$.2$}", x, w, p),
        (Some(p), Some(w), true) => write!(o, "{:#1$.2$}", x, w, p),
    }
}
/// Formats other numbers while it is being written to.
struct Busy<'a> {
    got: String,
    inner: &'a mut dyn FnMut(),
}
impl std::fmt::Write for Busy<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        (self.inner)();
        self.got.push_str(s);
        Ok(())
    }
}

macro_rules! flags {
    ($x:expr, $p:expr, $w:expr, $alt:expr, $pre:literal, $zero:literal) => {
        match ($p, $w, $alt) {
            (None, None, false) => format!(concat!("{:", $pre, $zero, "}"), $x),
            (None, None, true) => format!(concat!("{:", $pre, "#", $zero, "}"), $x),
            (None, Some(w), false) => format!(concat!("{:", $pre, $zero, "1$}"), $x, w),
            (None, Some(w), true) => format!(concat!("{:", $pre, "#", $zero, "1$}"), $x, w),
            (Some(p), None, false) => format!(concat!("{:", $pre, $zero, ".1$}"), $x, p),
            (Some(p), None, true) => format!(concat!("{:", $pre, "#", $zero, ".1$}"), $x, p),
            (Some(p), Some(w), false) => format!(concat!("{:", $pre, $zero, "1$.2$}"), $x, w, p),
            (Some(p), Some(w), true) => format!(concat!("{:", $pre, "#", $zero, "1$.2$}"), $x, w, p),
        }
    };
}
const SPECS: [&str; 12] = ["+", "0", "+0", "<", ">", "^", "*<", "0^", "_>+", "\u{e9}^+0", "-", "#>-0"];
fn flagged<T: Display>(k: usize, x: &T, p: Option<usize>, w: Option<usize>, alt: bool) -> String {
    match k {
        0 => flags!(x, p, w, alt, "+", ""),
        1 => flags!(x, p, w, alt, "", "0"),
        2 => flags!(x, p, w, alt, "+", "0"),
        3 => flags!(x, p, w, alt, "<", ""),
        4 => flags!(x, p, w, alt, ">", ""),
        5 => flags!(x, p, w, alt, "^", ""),
        6 => flags!(x, p, w, alt, "*<", ""),
        7 => flags!(x, p, w, alt, "0^", ""),
        8 => flags!(x, p, w, alt, "_>+", ""),
        9 => flags!(x, p, w, alt, "\u{e9}^+", "0"),
        10 => flags!(x, p, w, alt, "-", ""),
        _ => flags!(x, p, w, alt, "#>-", "0"),
    }
}
fn debug_flagged<T: Debug>(k: usize, x: &T) -> String {
    match k {
        0 => format!("{:?}", x),
        1 => format!("{:+?}", x),
        2 => format!("{:030.4?}", x),
        3 => format!("{:*^60?}", x),
        4 => format!("{:.2?}", x),
        5 => format!("{:0?}", x),
        6 => format!("{:x?}", x),
        _ => format!("{:.0?}", x),
    }
}

fn slot(id: u64) -> u8 {
    if id == 8 { dd::ID } else { id as u8 }
}
fn name(id: u64) -> &'static str {
    if id == 8 { dd::NAME } else { model::BUILTIN[id as usize].name }
}
fn class(v: &V, text: &str) -> Cls {
    match v {
        V::Nan { .. } => Cls::NanProp,
        V::Inf(_) => Cls::Inf,
        V::Zero(_) => Cls::ZeroExact,
        V::Fin { .. } if text.contains(['e', 'E']) => Cls::RoundUp,
        V::Fin { .. } if text.contains('.') => Cls::RoundDown,
        V::Fin { .. } => Cls::Exact,
    }
}

fn value(ctx: &mut Ctx, id: u64) -> u128 {
    let r = &mut ctx.rng;
    if id == 8 {
        return match r.below(6) {
            0 => dd::any(r),
            1 => dd::split(&V::Fin { neg: r.bool(), m: Big::from_u128(gen::pattern(r, 106) | 1), e: -r.range(0, 120) }),
            _ => {
                let lim = if r.bool() { 40 } else { 200 };
                dd::finite_in(r, -lim, lim)
            }
        };
    }
    let f = model::BUILTIN[id as usize];
    match r.below(8) {
        // (the largest and smallest values of the wide formats take milliseconds each)
        0 | 1 if f.emax < 5000 || r.chance(1, 60) => gen::any(r, &f),
        2 if f.emax < 5000 || r.chance(1, 60) => gen::integral_arg(r, &f),
        3 => {
            let s = gen::specials(&f);
            loop {
                let a = *r.pick(&s);
                let v = model::decode(&f, a);
                if f.emax < 5000 || !v.is_fin() || r.chance(1, 60) {
                    break a;
                }
            }
        }
        4 => {
            // NaNs, zeros and infinities
            let a = gen::any(r, &f);
            if model::decode(&f, a).is_fin() && f.emax > 5000 {
                model::encode(&f, &model::default_nan(&f, r.bool())) ^ r.u128() & f.all_mask() >> 20
            } else {
                a
            }
        }
        _ => {
            let lim = if r.bool() { 30 } else { 300 };
            gen::finite_in(r, &f, -lim, lim)
        }
    }
}

fn one<T: Float + Debug + Display>(ctx: &mut Ctx, id: u64) {
    let (a, b) = (value(ctx, id), value(ctx, id));
    let b = match ctx.rng.below(3) {
        0 => b,
        // one bit away
        _ => a ^ 1 << ctx.rng.below(if id == 8 { 128 } else { model::BUILTIN[id as usize].bits as u64 }),
    };
    let r = &mut ctx.rng;
    let p = match r.below(5) {
        0 | 1 => None,
        2 => Some(r.below(3) as usize),
        3 => Some(1 + r.below(40) as usize),
        _ => Some(1 + r.below(120) as usize),
    };
    let w = match r.below(5) {
        0 | 1 => None,
        2 => Some(r.below(3) as usize),
        3 => Some(r.below(40) as usize),
        _ => Some(r.below(400) as usize),
    };
    let alt = r.bool();
    let enc = |o: Option<usize>| o.map_or(0, |x| x as u128 + 1);
    let args = [a, enc(p), enc(w), alt as u128];
    let s = slot(id);
    let (v, want) = if id == 8 {
        let v = dd::to106(a);
        let t = model::display(&F106, &v, p, w, alt);
        (v, t)
    } else {
        let f = model::BUILTIN[id as usize];
        let v = model::decode(&f, a);
        let t = model::display(&f, &v, p, w, alt);
        (v, t)
    };
    let cls = class(&v, &want);
    let x = T::from_bits(a);

    let c = case("display", name(id), NOMODE, &args);
    let Some(got) = ctx.sut(&c, || render(&x, p, w, alt)) else { return };
    ctx.seen(PLAIN as usize, s, NOMODE, cls, nontriv(cls), hash_args(0, &args));
    if got != want {
        return ctx.fail(&c, &format!("got {:?}, expected {:?}", got, want));
    }

    // the flags that mean nothing here
    let k = ctx.rng.below(SPECS.len() as u64) as usize;
    let c = case("display with flags", name(id), NOMODE, &args);
    if let Some(got) = ctx.sut(&c, || flagged(k, &x, p, w, alt)) {
        ctx.seen(FLAGS as usize, s, NOMODE, cls, nontriv(cls), hash_args(k as u64 + 10, &args));
        ctx.sample(|| format!("{} {:?} -> {:?}", c.describe(), SPECS[k], got));
        if got != want {
            ctx.fail(&c, &format!("with {:?}: got {:?}, expected {:?}", SPECS[k], got, want));
        }
    }

    // a sink that gives up at some byte
    let c = case("display into a failing sink", name(id), NOMODE, &args);
    let n = want.len();
    let mut rooms = vec![0, n - 1, n];
    let heavy = id < 8 && v.is_fin() && model::BUILTIN[id as usize].emax > 5000 && {
        let V::Fin { m, e, .. } = &v else { unreachable!() };
        (m.bits() as i64 + e).abs() > 800
    };
    if heavy {
        rooms = vec![0, 1, n - 1, n];
    } else if n <= 40 {
        rooms = (0..=n).collect();
    } else {
        for _ in 0..12 {
            rooms.push(ctx.rng.below(n as u64 + 1) as usize);
        }
        let around = want.find(['e', 'E', '.']).unwrap_or(1);
        rooms.extend([around - (around > 0) as usize, around, around + 1, 1, 2]);
    }
    for room in rooms {
        let res = ctx.sut(&c, || {
            let mut o = Short { room, got: vec![], failed: false, late: 0 };
            let r = put(&mut o, &x, p, w, alt);
            (r.is_ok(), o.got, o.late)
        });
        let Some((ok, got, late)) = res else { return };
        ctx.seen(FAIL as usize, s, NOMODE, if room >= n { Cls::Exact } else { Cls::Invalid }, true, hash_args(room as u64 + 100, &args));
        if ok != (room >= n) {
            ctx.fail(&c, &format!("a sink with room for {} of {} bytes: the call {}", room, n, if ok { "succeeded" } else { "failed" }));
        } else if got != want.as_bytes()[..room.min(n)] {
            ctx.fail(&c, &format!("a sink with room for {} bytes got {:?} of {:?}", room, String::from_utf8_lossy(&got), want));
        } else if late > 0 {
            ctx.fail(&c, &format!("{} writes after the sink had failed at byte {}", late, room));
        }
    }

    // a sink that prints and reads other numbers meanwhile
    if ctx.rng.chance(1, 4) {
        let c = case("display into a busy sink", name(id), NOMODE, &args);
        let y = T::from_bits(b);
        let res = ctx.sut(&c, || {
            let quiet = (render(&y, p, None, alt), T::from_str_r("1.25e-3", rm(0)).map(|r| r.value.to_bits()).ok());
            let mut same = true;
            let mut calls = 0u32;
            let mut inner = || {
                calls += 1;
                if calls < 4 {
                    let t = (render(&y, p, None, alt), T::from_str_r("1.25e-3", rm(0)).map(|r| r.value.to_bits()).ok());
                    same &= t == quiet;
                }
            };
            let mut o = Busy { got: String::new(), inner: &mut inner };
            let _ = put(&mut o, &x, p, w, alt);
            (o.got, same)
        });
        if let Some((got, same)) = res {
            ctx.seen(NESTED as usize, s, NOMODE, cls, nontriv(cls), hash_args(3, &args));
            if got != want {
                ctx.fail(&c, &format!("got {:?}, expected {:?}", got, want));
            }
            if !same {
                ctx.fail(&c, "the number formatted inside the sink came out different");
            }
        }
    }

    // the debug form
    let c = case("debug", name(id), NOMODE, &[a, b]);
    let k = ctx.rng.below(8) as usize;
    let res = ctx.sut(&c, || {
        // the encodings the format itself would choose
        let x = T::from_bits(x.to_bits());
        let y = T::from_bits(T::from_bits(b).to_bits());
        (format!("{}", x), debug_flagged(0, &x), debug_flagged(if id == 8 { 0 } else { k }, &x), debug_flagged(0, &y), x.to_bits() == y.to_bits())
    });
    if let Some((shown, dx, df, dy, same)) = res {
        ctx.seen(DEBUG as usize, s, NOMODE, cls, nontriv(cls), hash_args(4, &[a, b]));
        ctx.sample(|| format!("{} -> {:?}", c.describe(), dx));
        if dx != df {
            ctx.fail(&c, &format!("the debug form is {:?}, and with flags ({}) {:?}", dx, k, df));
        }
        if (dx == dy) != same {
            ctx.fail(&c, &format!("{} values have the debug forms {:?} and {:?}", if same { "equal" } else { "different" }, dx, dy));
        }
        if id != 8 && !dx.starts_with(&shown) {
            ctx.fail(&c, &format!("the debug form {:?} does not begin with the value, {:?}", dx, shown));
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % 9;
    by_fmt_dd!(id, T => {
        for _ in 0..60 {
            one::<T>(ctx, id);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7, dd::ID];
    t.need(&mut v, &[PLAIN as usize, FLAGS as usize, DEBUG as usize], &all, &[NanProp, ZeroExact, RoundUp, RoundDown, Exact]);
    t.need(&mut v, &[FAIL as usize], &all, &[Exact, Invalid]);
    t.need(&mut v, &[NESTED as usize], &all, &[RoundDown, Exact]);
    v
}

fn main() {
    run("E05", Spec {
        ops: &["display", "display with flags", "failing sink", "busy sink", "debug"],
        rule: "an event is one formatting call: with every combination of sign, fill, alignment and zero flags next to the same call without them; into a sink that fails after each possible number of bytes (what arrived, the returned error, writes after the failure); into a sink that formats and parses other numbers during each write; or in the debug form, of two values that are unrelated or one bit apart; classes: failing sink: exact = large enough, invalid = too small; otherwise exact = plain integer text, inexact-down = positional fraction, inexact-up = scientific",
        quick: 9 * 400,
        thorough: 9 * 40_000,
        chunk,
        gate,
        before: nothing,
    })
}
