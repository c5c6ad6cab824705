//! E02: single, double, half and 80-bit results are those of the processor (and of `core`).
use mon::fp::*;
use mon::gen;
use mon::host::{self, IE, OE, PE, UE};
use mon::hw::*;
use mon::model::{self, Cls};
use mon::run::*;

const S: model::Fmt = model::SINGLE;
const D: model::Fmt = model::DOUBLE;
const X: model::Fmt = model::X87;
const H: model::Fmt = model::HALF;

const ARITH: usize = 0;
const FMA: usize = 1;
const REM: usize = 2;
const RINT: usize = 3;
const CONV: usize = 4;
const INT: usize = 5;
const CMP: usize = 6;
const SCALE: usize = 7;
const TEXT: usize = 8;

type Op2 = fn(u128, u128, u8) -> (u128, u32);
fn d2(f: fn(f64, f64, u8) -> (f64, u32), a: u128, b: u128, m: u8) -> (u128, u32) {
    let r = f(f64::from_bits(a as u64), f64::from_bits(b as u64), m);
    (r.0.to_bits() as u128, r.1)
}
fn s2(f: fn(f32, f32, u8) -> (f32, u32), a: u128, b: u128, m: u8) -> (u128, u32) {
    let r = f(f32::from_bits(a as u32), f32::from_bits(b as u32), m);
    (r.0.to_bits() as u128, r.1)
}
macro_rules! ops {
    ($($n:ident $w:ident $f:ident)*) => { $(fn $n(a: u128, b: u128, m: u8) -> (u128, u32) { $w(host::$f, a, b, m) })* };
}
ops! { add_d d2 add_d  sub_d d2 sub_d  mul_d d2 mul_d  div_d d2 div_d  rint_d d2 rint_d
       add_s s2 add_s  sub_s s2 sub_s  mul_s s2 mul_s  div_s s2 div_s  rint_s s2 rint_s }

struct Unit {
    bin: [Op2; 4],
    rint: Op2,
    rem: [Op2; 2],
}
fn unit(id: u8) -> Unit {
    if id == S.id {
        Unit { bin: [add_s, sub_s, mul_s, div_s], rint: rint_s, rem: [host::rem_s, host::rem1_s] }
    } else if id == D.id {
        Unit { bin: [add_d, sub_d, mul_d, div_d], rint: rint_d, rem: [host::rem_d, host::rem1_d] }
    } else {
        Unit { bin: [host::add_x, host::sub_x, host::mul_x, host::div_x], rint: host::rint_x, rem: [host::rem_x, host::rem1_x] }
    }
}

fn arith<T: Fp>(ctx: &mut Ctx) {
    let f = &T::FMT;
    let u = unit(f.id);
    let fine = |b: u128| !f.x87 || canonical(b);
    let draw = |ctx: &mut Ctx, k: u64| -> (u128, u128) {
        loop {
            let r = &mut ctx.rng;
            let (a, b) = match k {
                0 | 1 => gen::add_pair(r, f),
                2 => gen::mul_pair(r, f),
                3 => gen::div_pair(r, f),
                4 => gen::rem_pair(r, f),
                _ => (gen::any(r, f), gen::any(r, f)),
            };
            if fine(a) && fine(b) {
                return (a, b);
            }
        }
    };
    for _ in 0..60 {
        for k in 0..4usize {
            let g = if ctx.rng.chance(1, 10) { 9 } else { k as u64 };
            let (a, b) = draw(ctx, g);
            for mode in 0..4u8 {
                let c = case(["add_r", "sub_r", "mul_r", "div_r"][k], f.name, mode, &[a, b]);
                let h = (u.bin[k])(a, b, mode);
                same(ctx, ARITH, f, &c, h, true, || {
                    let (x, y) = (lv::<T>(a), lv2::<T>(b));
                    sv(match k { 0 => x.add_r(y, rm(mode)), 1 => x.sub_r(y, rm(mode)), 2 => x.mul_r(y, rm(mode)), _ => x.div_r(y, rm(mode)) })
                });
            }
        }
        // remainders
        if f.x87 && !ctx.rng.chance(1, 6) {
            continue;
        }
        let (a, b) = draw(ctx, 4);
        for k in 0..2usize {
            let c = case(["c_fmod", "ieee_rem"][k], f.name, NOMODE, &[a, b]);
            let mut h = (u.rem[k])(a, b, 0);
            h.1 &= !(UE | PE | if f.x87 { 0 } else { OE });
            let both = is_nan(f, a) || is_nan(f, b);
            same(ctx, REM, f, &c, h, !both, || {
                let (x, y) = (lv::<T>(a), lv2::<T>(b));
                sv(if k == 0 { x.c_fmod(y) } else { x.ieee_rem(y) })
            });
        }
    }
    for _ in 0..60 {
        let a = loop {
            let a = if ctx.rng.chance(1, 6) { gen::any(&mut ctx.rng, f) } else { gen::integral_arg(&mut ctx.rng, f) };
            if fine(a) {
                break a;
            }
        };
        for mode in 0..4u8 {
            let c = case("round_to_integral", f.name, mode, &[a]);
            let h = (u.rint)(a, a, mode);
            same(ctx, RINT, f, &c, h, true, || sv(lv::<T>(a).round_to_integral(rm(mode))));
        }
    }
    for _ in 0..40 {
        let (a, b) = draw(ctx, 9);
        let b = match ctx.rng.below(4) { 0 => a, 1 => a ^ f.sign_bit(), 2 => a ^ 1, _ => b };
        let w = if f.id == S.id {
            f32::from_bits(a as u32).partial_cmp(&f32::from_bits(b as u32))
        } else if f.id == D.id {
            f64::from_bits(a as u64).partial_cmp(&f64::from_bits(b as u64))
        } else {
            use std::cmp::Ordering::*;
            [Some(Less), Some(Equal), Some(Greater), None][host::cmp_x(a, b) as usize]
        };
        let c = case("partial_cmp", f.name, NOMODE, &[a, b]);
        answer(ctx, CMP, f, &c, w, || lv::<T>(a).partial_cmp(&lv2::<T>(b)));
    }
}

fn fma<T: Fp>(ctx: &mut Ctx) {
    let f = &T::FMT;
    if !host::has_fma() {
        ctx.note("no FMA instructions", 1);
        return;
    }
    for _ in 0..80 {
        let (a, b, c3) = gen::fma_triple(&mut ctx.rng, f);
        let nan = is_nan(f, a) || is_nan(f, b) || is_nan(f, c3);
        for mode in 0..4u8 {
            let c = case("mul_add_r", f.name, mode, &[a, b, c3]);
            let h = if f.id == D.id {
                let r = host::fma_d(f64::from_bits(a as u64), f64::from_bits(b as u64), f64::from_bits(c3 as u64), mode);
                (r.0.to_bits() as u128, r.1)
            } else {
                let r = host::fma_s(f32::from_bits(a as u32), f32::from_bits(b as u32), f32::from_bits(c3 as u32), mode);
                (r.0.to_bits() as u128, r.1)
            };
            same(ctx, FMA, f, &c, h, !nan, || sv(lv::<T>(a).mul_add_r(lv2::<T>(b), lv3::<T>(c3), rm(mode))));
        }
    }
}

fn conv(ctx: &mut Ctx) {
    let mut to = |ctx: &mut Ctx, f: &model::Fmt, t: &model::Fmt, name: &'static str, hw: &dyn Fn(u128, u8) -> (u128, u32), lib: &dyn Fn(u128, u8) -> (u128, u8, bool)| {
        for _ in 0..40 {
            let a = gen::convert_arg(&mut ctx.rng, f, t);
            if f.x87 && !canonical(a) {
                continue;
            }
            for mode in 0..4u8 {
                let c = case(name, f.name, mode, &[a]);
                let h = hw(a, mode);
                let mut lost = false;
                same(ctx, CONV, t, &c, h, true, || {
                    let r = lib(a, mode);
                    lost = r.2;
                    (r.0, r.1)
                });
                if !is_nan(f, a) && lost != (h.1 & PE != 0) {
                    ctx.fail(&c, &format!("loses_info is {}, the processor's flags are {:#x}", lost, h.1));
                }
            }
        }
    };
    macro_rules! lib {
        ($f:ty => $t:ty) => {
            &|a, m| {
                let mut l = false;
                let r: StatusAnd<$t> = lv::<$f>(a).convert_r(rm(m), &mut l);
                (r.value.to_bits(), r.status.bits(), l)
            }
        };
    }
    to(ctx, &D, &S, "to Single", &|a, m| { let r = host::d_to_s(a as u64, m); (r.0 as u128, r.1) }, lib!(ieee::Double => ieee::Single));
    to(ctx, &S, &D, "to Double", &|a, m| { let r = host::s_to_d(a as u32, m); (r.0 as u128, r.1) }, lib!(ieee::Single => ieee::Double));
    to(ctx, &X, &D, "to Double", &|a, m| host::x_to_d(a, a, m), lib!(ieee::X87DoubleExtended => ieee::Double));
    to(ctx, &X, &S, "to Single", &|a, m| host::x_to_s(a, a, m), lib!(ieee::X87DoubleExtended => ieee::Single));
    to(ctx, &D, &X, "to X87", &|a, m| host::d_to_x(a, a, m), lib!(ieee::Double => ieee::X87DoubleExtended));
    to(ctx, &S, &X, "to X87", &|a, m| host::s_to_x(a, a, m), lib!(ieee::Single => ieee::X87DoubleExtended));
    if host::has_f16c() {
        to(ctx, &S, &H, "to Half", &|a, m| { let r = host::s_to_h(a as u32, m); (r.0 as u128 & 0xffff, r.1) }, lib!(ieee::Single => ieee::Half));
        to(ctx, &H, &S, "to Single", &|a, m| { let r = host::h_to_s(a as u32, m); (r.0 as u128, r.1) }, lib!(ieee::Half => ieee::Single));
    } else {
        ctx.note("no half-precision instructions", 1);
    }
}

fn ints<T: Fp>(ctx: &mut Ctx) {
    let f = &T::FMT;
    // to integers of the widths the processor has; out of range the processor only says "invalid"
    for _ in 0..60 {
        let a = loop {
            let a = match ctx.rng.below(4) {
                0 => gen::any(&mut ctx.rng, f),
                1 => {
                    let w = [15, 31, 63][ctx.rng.below(3) as usize];
                    let e = w - 1 + ctx.rng.range(-1, 2);
                    let (n, s) = (ctx.rng.bool(), gen::pattern(&mut ctx.rng, f.p - 1));
                    gen::with_exp(f, n, e, s)
                }
                _ => gen::integral_arg(&mut ctx.rng, f),
            };
            if !f.x87 || canonical(a) {
                break a;
            }
        };
        for mode in 0..4u8 {
            for w in [16usize, 32, 64] {
                let (v, fl) = match (f.id, w) {
                    (i, 64) if i == S.id => { let r = host::s_to_i64(a as u32, mode); (r.0 as i64, r.1) }
                    (i, 64) if i == D.id => { let r = host::d_to_i64(a as u64, mode); (r.0 as i64, r.1) }
                    (i, 32) if i == D.id => { let r = host::d_to_i32(a as u64, mode); (r.0 as i32 as i64, r.1) }
                    (i, 16) if i == X.id => { let r = host::x_to_i16(a, a, mode); (r.0 as i16 as i64, r.1) }
                    (i, 32) if i == X.id => { let r = host::x_to_i32(a, a, mode); (r.0 as i32 as i64, r.1) }
                    (i, 64) if i == X.id => { let r = host::x_to_i64(a, a, mode); (r.0 as i64, r.1) }
                    _ => continue,
                };
                let c = case("to_i128_r", f.name, mode, &[a, w as u128]);
                let invalid = fl & IE != 0;
                let want = (if invalid { None } else { Some(v as i128) }, if invalid { 1u8 } else if fl & PE != 0 { 16 } else { 0 });
                answer(ctx, INT, f, &c, want, || {
                    let r = lv::<T>(a).to_i128_r(w, rm(mode), &mut false);
                    let st = r.status.bits();
                    (if st & 1 != 0 { None } else { Some(r.value) }, st)
                });
            }
        }
        // the casts of the language: toward zero, saturating, NaN to zero
        let (i, u) = if f.id == S.id {
            let x = f32::from_bits(a as u32);
            (x as i128, x as u128)
        } else if f.id == D.id {
            let x = f64::from_bits(a as u64);
            (x as i128, x as u128)
        } else {
            continue;
        };
        let c = case("to_i128_r vs `as`", f.name, 3, &[a]);
        answer(ctx, INT, f, &c, (i, u), || {
            let x = lv::<T>(a);
            (x.to_i128_r(128, Round::TowardZero, &mut false).value, x.to_u128_r(128, Round::TowardZero, &mut false).value)
        });
    }
    for _ in 0..60 {
        let n = gen::int_arg(&mut ctx.rng, f);
        for mode in 0..4u8 {
            let i = n as i64;
            let h = if f.id == S.id {
                let r = host::i64_to_s(i as u64, mode);
                (r.0 as u128, r.1)
            } else if f.id == D.id {
                let r = host::i64_to_d(i as u64, mode);
                (r.0 as u128, r.1)
            } else {
                host::i64_to_x(i, mode)
            };
            let c = case("from_i128_r", f.name, mode, &[i as i128 as u128]);
            same(ctx, INT, f, &c, h, true, || sv(T::from_i128_r(i as i128, rm(mode))));
        }
        if f.id == S.id || f.id == D.id {
            let (u, i) = if f.id == S.id { ((n as f32).to_bits() as u128, (n as i128 as f32).to_bits() as u128) } else { ((n as f64).to_bits() as u128, (n as i128 as f64).to_bits() as u128) };
            let c = case("from_u128, from_i128 vs `as`", f.name, NOMODE, &[n]);
            answer(ctx, INT, f, &c, (u, i), || (T::from_u128(n).value.to_bits(), T::from_i128(n as i128).value.to_bits()));
        }
    }
}

fn scale(ctx: &mut Ctx) {
    type T = ieee::X87DoubleExtended;
    for _ in 0..60 {
        let r = &mut ctx.rng;
        let a = gen::any(r, &X);
        if !canonical(a) || is_nan(&X, a) {
            continue;
        }
        let n = match r.below(4) {
            0 => r.range(-200, 200),
            1 => r.range(-33000, 33000),
            2 => -16446 - (exp_field(&X, a) as i64 - 16383) + r.range(-70, 70),
            _ => 16383 - (exp_field(&X, a) as i64 - 16383) + r.range(-3, 3),
        };
        let (nx, _) = host::i64_to_x(n, 0);
        for mode in 0..4u8 {
            let h = host::scale_x(a, nx, mode);
            let c = case("scalbn_r", X.name, mode, &[a, n as u32 as u128]);
            same(ctx, SCALE, &X, &c, h, false, || (lv::<T>(a).scalbn_r(n as i32, rm(mode)).to_bits(), 0));
        }
        if a & !X.sign_bit() != 0 && !is_inf(&X, a) {
            let e = host::extract_exp_x(a, a, 0).0 as u32 as i32;
            let s = host::extract_sig_x(a, a, 0).0;
            let c = case("ilogb and significand", X.name, NOMODE, &[a]);
            answer(ctx, SCALE, &X, &c, (e, s), || {
                let x = lv::<T>(a);
                (x.ilogb(), x.scalbn(-x.ilogb()).to_bits())
            });
        }
    }
}

/// Scaling is multiplication by a power of two.
fn scale_mul<T: Fp>(ctx: &mut Ctx) {
    let f = &T::FMT;
    let lim = -f.emin;
    for _ in 0..60 {
        let a = gen::any(&mut ctx.rng, f);
        let e = exp_field(f, a) as i64 - f.emax;
        let n = match ctx.rng.below(3) {
            0 => f.emin - e - ctx.rng.range(0, f.p + 2),
            1 => f.emax - e + ctx.rng.range(-2, 3),
            _ => ctx.rng.range(-lim, lim),
        };
        if n < -lim || n > lim || is_nan(f, a) {
            continue;
        }
        let b = gen::with_exp(f, false, n, 0);
        let u = unit(f.id);
        for mode in 0..4u8 {
            let h = (u.bin[2])(a, b, mode);
            let c = case("scalbn_r", f.name, mode, &[a, n as u32 as u128]);
            same(ctx, SCALE, f, &c, h, false, || (lv::<T>(a).scalbn_r(n as i32, rm(mode)).to_bits(), 0));
        }
    }
}

/// `core` reads and prints decimal text with other algorithms.
fn text<T: Fp>(ctx: &mut Ctx) {
    let f = &T::FMT;
    for _ in 0..40 {
        let r = &mut ctx.rng;
        let (mut d, mut e) = gen::boundary_decimal(r, f);
        if r.chance(2, 3) {
            gen::perturb_decimal(r, &mut d, &mut e);
        }
        let neg = r.bool();
        let s = gen::spell_decimal(r, neg, &d, e);
        let want = if f.id == S.id { s.parse::<f32>().ok().map(|x| x.to_bits() as u128) } else { s.parse::<f64>().ok().map(|x| x.to_bits() as u128) };
        let Some(want) = want else { continue };
        ctx.text(&s);
        let c = case("from_str vs core", f.name, NOMODE, &[hash_str(&s) as u128]);
        answer(ctx, TEXT, f, &c, want, || s.parse::<T>().map_or(!0, |x| x.to_bits()));
        ctx.no_text();
    }
    for _ in 0..40 {
        let a = gen::finite(&mut ctx.rng, f);
        // shortest text of `core` reads back to the value; the library's text is read back by `core`
        let s = if f.id == S.id { format!("{:e}", f32::from_bits(a as u32)) } else { format!("{:e}", f64::from_bits(a as u64)) };
        ctx.text(&s);
        let c = case("shortest text of core", f.name, NOMODE, &[a]);
        answer(ctx, TEXT, f, &c, a, || s.parse::<T>().map_or(!0, |x| x.to_bits()));
        ctx.no_text();
        let c = case("printed text read by core", f.name, NOMODE, &[a]);
        let Some(t) = ctx.sut(&c, || format!("{}", lv::<T>(a))) else { continue };
        let back = if f.id == S.id { t.parse::<f32>().map_or(!0, |x| x.to_bits() as u128) } else { t.parse::<f64>().map_or(!0, |x| x.to_bits() as u128) };
        ctx.seen(TEXT, f.id, NOMODE, Cls::Exact, true, hash_args(99, &[a]));
        if back != a {
            ctx.fail(&c, &format!("{:?} is {:#x} to core", t, back));
        }
        // p significant digits: equal unless the discarded part is exactly one half
        let p = 1 + ctx.rng.below(20) as usize;
        let long = |n: usize| if f.id == S.id { format!("{:.*e}", n, f32::from_bits(a as u32)) } else { format!("{:.*e}", n, f64::from_bits(a as u64)) };
        let all = long(1100);
        let (m, x) = all.split_once('e').unwrap();
        let dg: Vec<u8> = m.bytes().filter(|b| b.is_ascii_digit()).map(|b| b - b'0').collect();
        let tie = dg[p] == 5 && dg[p + 1..].iter().all(|&d| d == 0);
        if tie || dg.iter().all(|&d| d == 0) {
            continue;
        }
        let _ = x;
        let want = long(p - 1);
        let (m, x) = want.split_once('e').unwrap();
        let m = if m.contains('.') { m.trim_end_matches('0') } else { m };
        let m = if m.ends_with('.') { format!("{}0", m) } else if m.contains('.') { m.to_string() } else { format!("{}.0", m) };
        let want = format!("{}E{}{}", m, if x.starts_with('-') { "" } else { "+" }, x);
        let c = case("digits of core", f.name, NOMODE, &[a, p as u128]);
        answer(ctx, TEXT, f, &c, want, || format!("{:1$.2$}", lv::<T>(a), 0, p));
    }
}

fn chunk(ctx: &mut Ctx) {
    match ctx.chunk % 10 {
        0 => arith::<ieee::Single>(ctx),
        1 => arith::<ieee::Double>(ctx),
        2 => arith::<ieee::X87DoubleExtended>(ctx),
        3 => fma::<ieee::Single>(ctx),
        4 => fma::<ieee::Double>(ctx),
        5 => conv(ctx),
        6 => {
            ints::<ieee::Single>(ctx);
            ints::<ieee::Double>(ctx);
        }
        7 => ints::<ieee::X87DoubleExtended>(ctx),
        8 => {
            scale(ctx);
            scale_mul::<ieee::Single>(ctx);
            scale_mul::<ieee::Double>(ctx);
        }
        _ => {
            text::<ieee::Single>(ctx);
            text::<ieee::Double>(ctx);
        }
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[ARITH], &[S.id, D.id, X.id], &[Exact, RoundUp, SubExact, SubInexact, ToZero, ZeroExact, OvfInf, OvfMax, Inf, NanProp, Invalid]);
    t.need(&mut v, &[REM], &[S.id, D.id, X.id], &[Exact, SubExact, ZeroExact, Invalid]);
    t.need(&mut v, &[RINT], &[S.id, D.id, X.id], &[Exact, RoundUp, ToZero]);
    t.need(&mut v, &[CONV], &[S.id, D.id], &[Exact, RoundUp, SubInexact, OvfInf, OvfMax]);
    t.need(&mut v, &[INT, CMP], &[S.id, D.id, X.id], &[Exact]);
    t.need(&mut v, &[SCALE], &[S.id, D.id, X.id], &[Exact, SubInexact, OvfInf, OvfMax]);
    t.need(&mut v, &[TEXT], &[S.id, D.id], &[Exact]);
    v
}

fn main() {
    run("E02", Spec {
        ops: &["add/sub/mul/div", "mul_add", "remainders", "round_to_integral", "format conversions", "integer conversions", "comparison", "scaling and exponent", "text"],
        rule: "an event is one call answered a second time by the processor (SSE, FMA, F16C and x87 instructions under the same rounding mode, exception flags read back) or by the float casts, parser and printer of Rust's core library; bits (NaN: only that it is one) and flags compared; no model of the monitor takes part; non-trivial = a finite non-zero result",
        quick: 10 * 4800,
        thorough: 10 * 40_000,
        chunk,
        gate,
        before: nothing,
    })
}
