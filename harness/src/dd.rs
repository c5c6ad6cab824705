//! Double-double values: generators and exact pair semantics for the oracle side.

use crate::big::Big;
use crate::gen;
use crate::model::{self, Fmt, V};
use crate::rng::Rng;

pub const D: Fmt = model::DOUBLE;
/// Coverage slot used for double-double.
pub const ID: u8 = 9;
pub const NAME: &str = "DoubleDouble";

pub fn join(hi: u128, lo: u128) -> u128 {
    hi | lo << 64
}
pub fn parts(b: u128) -> (u128, u128) {
    (b & u64::MAX as u128, b >> 64)
}
pub fn vparts(b: u128) -> (V, V) {
    let (h, l) = parts(b);
    (model::decode(&D, h), model::decode(&D, l))
}

/// Exact sum of two finite (or zero) values; zero keeps the sign of the high part.
pub fn exact_sum(a: &V, b: &V) -> V {
    match (a, b) {
        (V::Fin { neg: an, m: am, e: ae }, V::Fin { neg: bn, m: bm, e: be }) => {
            let e = (*ae).min(*be);
            let (x, y) = (am.shl(ae - e), bm.shl(be - e));
            if an == bn {
                return V::Fin { neg: *an, m: x.add(&y), e };
            }
            match x.cmp(&y) {
                std::cmp::Ordering::Equal => V::Zero(false),
                std::cmp::Ordering::Greater => V::Fin { neg: *an, m: x.sub(&y), e },
                std::cmp::Ordering::Less => V::Fin { neg: *bn, m: y.sub(&x), e },
            }
        }
        (V::Fin { .. }, _) => a.clone(),
        (V::Zero(_), V::Fin { .. }) => b.clone(),
        _ => a.clone(),
    }
}

/// The value of a pair: that of the high part for specials, the exact sum otherwise.
pub fn value(b: u128) -> V {
    let (h, l) = vparts(b);
    if h.is_fin() && l.is_finite() {
        exact_sum(&h, &l)
    } else {
        h
    }
}

/// Is the pair normalised: for a finite non-zero high part, high = value rounded to double;
/// otherwise a zero low part.
pub fn normalised(b: u128) -> bool {
    let (h, l) = vparts(b);
    match &h {
        V::Fin { .. } => {
            if l.is_zero() {
                return true;
            }
            if !l.is_fin() {
                return false;
            }
            match exact_sum(&h, &l) {
                V::Fin { neg, m, e } => model::encode(&D, &model::round_real(&D, neg, &m, e, false, model::RNE).v) == parts(b).0,
                _ => false,
            }
        }
        _ => l.is_zero(),
    }
}

/// The 106-bit rounding of a pair's value in the stand-in arithmetic, with its status.
pub fn to106(b: u128) -> V {
    match value(b) {
        V::Fin { neg, m, e } => model::round_real(&model::F106, neg, &m, e, false, model::RNE).v,
        V::Nan { neg, .. } => model::default_nan(&model::F106, neg),
        v => v,
    }
}

/// Split a finite value that fits 106 bits into a normalised pair (None on overflow of the high part -> infinity).
pub fn split(v: &V) -> u128 {
    match v {
        V::Fin { neg, m, e } => {
            let hi = model::round_real(&D, *neg, m, *e, false, model::RNE).v;
            if !hi.is_fin() {
                return join(model::encode(&D, &hi), 0);
            }
            let lo = match exact_sum(v, &hi.negated()) {
                V::Fin { neg, m, e } => model::round_real(&D, neg, &m, e, false, model::RNE),
                _ => return join(model::encode(&D, &hi), 0),
            };
            assert!(lo.st == 0, "the 106-bit remainder must be a double");
            join(model::encode(&D, &hi), model::encode(&D, &lo.v))
        }
        v => join(model::encode(&D, v), 0),
    }
}

/// |v| as (top exponent + 1): |v| in [2^(k-1), 2^k).
pub fn top(v: &V) -> i64 {
    match v {
        V::Fin { m, e, .. } => m.bits() + e,
        _ => i64::MIN / 4,
    }
}

/// A double strictly below half an ulp (or exactly at it when the tie goes back to `hi`), or zero: a legal low part for `hi`.
pub fn low_for(r: &mut Rng, hi: u128) -> u128 {
    let V::Fin { .. } = model::decode(&D, hi) else { return 0 };
    let v = model::decode(&D, hi);
    let half = v.ilogb() - 53; // exponent of half an ulp above
    for _ in 0..8 {
        let lo = match r.below(12) {
            0 | 1 => return if r.chance(1, 4) { 1 << 63 } else { 0 },
            2 => gen::with_exp(&D, r.bool(), half, 0),
            3 => {
                let b = gen::with_exp(&D, r.bool(), half, 0);
                gen::nudge(r, &D, b, 2)
            }
            4 => gen::with_exp(&D, r.bool(), half - 1, (1 << 52) - 1 - r.below(3) as u128),
            5 => {
                let p = gen::pattern(r, 52);
                gen::with_exp(&D, r.bool(), half - 1, p)
            }
            6 | 7 | 8 => {
                let (p, k) = (gen::pattern(r, 52), r.below(54) as i64);
                gen::with_exp(&D, r.bool(), half - 1 - k, p)
            }
            9 => {
                let (p, k) = (gen::pattern(r, 52), r.below(200) as i64);
                gen::with_exp(&D, r.bool(), half - 1 - k, p)
            }
            10 => gen::with_exp(&D, r.bool(), half - 40 - r.below(30) as i64, 0),
            _ => {
                let lo = D.qmin();
                let e = r.range(lo, half.max(lo));
                let p = gen::pattern(r, 52);
                gen::with_exp(&D, r.bool(), e, p)
            }
        };
        if half <= D.qmin() {
            return 0;
        }
        if normalised(join(hi, lo)) {
            return lo;
        }
    }
    0
}

/// A finite non-zero normalised pair with high exponent in lo..=hi.
pub fn finite_in(r: &mut Rng, lo: i64, hi: i64) -> u128 {
    let h = gen::finite_in(r, &D, lo, hi);
    let l = low_for(r, h);
    join(h, l)
}
pub fn finite(r: &mut Rng) -> u128 {
    let h = match r.below(8) {
        0 => {
            // the top, where overflow to infinity lurks
            let k = r.below(3) as i64;
            let p = match r.below(3) {
                0 => (1 << 52) - 1,
                1 => (1 << 52) - 1 - r.below(4) as u128,
                _ => gen::pattern(r, 52),
            };
            gen::with_exp(&D, r.bool(), D.emax - k, p)
        }
        1 => gen::finite_in(r, &D, -60, 60),
        2 => gen::finite_in(r, &D, -1022, -900),
        _ => loop {
            let h = gen::finite(r, &D);
            if model::decode(&D, h).is_fin() {
                break h;
            }
        },
    };
    let l = low_for(r, h);
    join(h, l)
}
/// Zeros, infinities and NaNs as double-double encodes them (low part zero).
pub fn special(r: &mut Rng) -> u128 {
    let h = match r.below(6) {
        0 | 1 => (r.below(2) as u128) << 63,
        2 | 3 => gen::inf(&D, r.bool()),
        _ => gen::nan(r, &D),
    };
    join(h, 0)
}
pub fn any(r: &mut Rng) -> u128 {
    if r.chance(1, 8) {
        special(r)
    } else {
        finite(r)
    }
}
/// A pair whose value is near `b` (a few last places of 106 bits, or a few of the low part).
pub fn near(r: &mut Rng, b: u128) -> u128 {
    let (h, l) = parts(b);
    for _ in 0..6 {
        let c = match r.below(5) {
            0 => join(h, l ^ 1 << 63),
            1 => {
                let k = 1 + r.below(3) as i64;
                join(h, gen::nudge(r, &D, l, k))
            }
            2 => {
                let n = gen::nudge(r, &D, h, 1);
                join(n, l)
            }
            3 => join(h, 0),
            _ => {
                let l = low_for(r, h);
                join(h, l)
            }
        };
        if value(c).is_fin() && normalised(c) {
            return c;
        }
    }
    b
}
pub fn big(x: u128) -> Big {
    Big::from_u128(x)
}

/// Run `$body` with `$T` bound to built-in format `$i`, or to double-double for 8.
#[macro_export]
macro_rules! by_fmt_dd {
    ($i:expr, $T:ident => $body:expr) => {
        if $i == 8 {
            type $T = rustc_apfloat::ppc::DoubleDouble;
            $body
        } else {
            $crate::by_fmt!($i, $T => $body)
        }
    };
}

/// Operand pairs: unrelated, close in exponent, nearly equal or nearly cancelling, and factor-related.
pub fn pair(r: &mut Rng) -> (u128, u128) {
    let a = finite(r);
    let b = match r.below(8) {
        0 => finite(r),
        1 | 2 => {
            let e = top(&value(a)) - 1;
            finite_in(r, e - 110, e + 110)
        }
        3 => {
            let e = top(&value(a)) - 1;
            finite_in(r, e - 3, e + 3)
        }
        4 => {
            let n = near(r, a);
            negate(n)
        }
        5 => near(r, a),
        6 => {
            // same high part, unrelated low part, either sign
            let h = parts(a).0 ^ (r.below(2) as u128) << 63;
            let l = low_for(r, h);
            join(h, l)
        }
        _ => {
            // a small integer or a power of two
            let h = if r.bool() {
                model::encode(&D, &V::Fin { neg: r.bool(), m: Big::from_u128(1 + r.below(100) as u128), e: 0 })
            } else {
                let e = r.range(-900, 900);
                gen::with_exp(&D, r.bool(), e, 0)
            };
            join(h, 0)
        }
    };
    if r.bool() { (a, b) } else { (b, a) }
}
/// The pair with both components negated.
pub fn negate(b: u128) -> u128 {
    let (h, l) = parts(b);
    join(h ^ 1 << 63, if l & !(1 << 63) == 0 { l } else { l ^ 1 << 63 })
}

pub fn sut(b: u128) -> rustc_apfloat::ppc::DoubleDouble {
    crate::fp::lvf(b)
}
pub fn case2(op: &'static str, mode: u8, args: &[u128]) -> crate::run::Case {
    crate::run::case(op, NAME, mode, args)
}

/// The operation in the 106-bit stand-in arithmetic on already rounded operands.
pub fn op106(op: usize, a: &V, b: &V, c: &V, mode: u8) -> model::Out {
    use crate::ops::*;
    use crate::model::{finish, F106};
    let f = &F106;
    match op {
        ADD => finish(f, &model::add(f, a, b), mode),
        SUB => finish(f, &model::sub(f, a, b), mode),
        MUL => finish(f, &model::mul(f, a, b), mode),
        DIV => finish(f, &model::div(f, a, b), mode),
        FMA => finish(f, &model::fma(f, a, b, c), mode),
        FMOD => finish(f, &model::fmod(f, a, b), mode),
        REM => finish(f, &model::ieee_rem(f, a, b), mode),
        RTI => model::round_to_integral(f, a, mode),
        NEXT_UP => model::next_up(f, a),
        NEXT_DOWN => model::next_down(f, a),
        _ => unreachable!(),
    }
}

/// Sums and differences whose overflow hangs on the low parts and on the order of summation.
pub fn near_top(r: &mut Rng) -> (u128, u128) {
    let max = (gen::inf(&D, false) - 1) - if r.bool() { 0 } else { r.below(4) as u128 };
    let neg = r.bool();
    let l = low_for(r, max);
    let a = join(max, l);
    let e = match r.below(4) {
        0 => 1023,
        1 => 970 + r.range(-3, 3),
        2 => r.range(900, 1023),
        _ => 917 + r.range(-3, 3),
    };
    let b = finite_in(r, e.min(1023), e.min(1023));
    let (a, b) = (if neg { negate(a) } else { a }, b);
    if r.bool() { (a, b) } else { (b, a) }
}

