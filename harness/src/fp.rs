//! Glue to the code under test: formats as types, calls as recorded events.

use crate::model::{self as m, Fmt};
pub use rustc_apfloat::ieee::{self, NonfiniteBehavior, Semantics};
pub use rustc_apfloat::{Category, Float, FloatConvert, ParseError, Round, Status, StatusAnd};

/// A format under test, paired with its row in the oracle's own format table.
pub trait Fp: Float + Send + Sync + std::fmt::Debug + 'static {
    const FMT: Fmt;
    /// Out to another format and back.
    fn via(self, wide: bool) -> Self;
}
macro_rules! via_body {
    ($x:ident, $wide:ident) => {{
        let mut l = false;
        if $wide {
            let q: ieee::Quad = $x.convert(&mut l).value;
            q.convert(&mut l).value
        } else {
            let q: ieee::X87DoubleExtended = $x.convert(&mut l).value;
            q.convert(&mut l).value
        }
    }};
}

macro_rules! fp {
    ($($t:ty = $f:expr;)*) => { $(impl Fp for $t {
        const FMT: Fmt = $f;
        fn via(self, wide: bool) -> Self {
            via_body!(self, wide)
        }
    })* };
}
fp! {
    ieee::Half = m::HALF;
    ieee::Single = m::SINGLE;
    ieee::Double = m::DOUBLE;
    ieee::Quad = m::QUAD;
    ieee::BFloat = m::BFLOAT;
    ieee::Float8E5M2 = m::E5M2;
    ieee::Float8E4M3FN = m::E4M3;
    ieee::X87DoubleExtended = m::X87;
}

pub const NB: u64 = 8;

/// Run `$body` with `$T` bound to the built-in format number `$i`.
#[macro_export]
macro_rules! by_fmt {
    ($i:expr, $T:ident => $body:expr) => {
        match $i {
            0 => { type $T = $crate::fp::ieee::Half; $body }
            1 => { type $T = $crate::fp::ieee::Single; $body }
            2 => { type $T = $crate::fp::ieee::Double; $body }
            3 => { type $T = $crate::fp::ieee::Quad; $body }
            4 => { type $T = $crate::fp::ieee::BFloat; $body }
            5 => { type $T = $crate::fp::ieee::Float8E5M2; $body }
            6 => { type $T = $crate::fp::ieee::Float8E4M3FN; $body }
            7 => { type $T = $crate::fp::ieee::X87DoubleExtended; $body }
            _ => unreachable!(),
        }
    };
}

pub const ROUNDS: [Round; 5] = [
    Round::NearestTiesToEven,
    Round::TowardPositive,
    Round::TowardNegative,
    Round::TowardZero,
    Round::NearestTiesToAway,
];
#[inline]
pub fn rm(mode: u8) -> Round {
    ROUNDS[mode as usize]
}
#[inline]
pub fn sv<T: Float>(r: StatusAnd<T>) -> (u128, u8) {
    (r.value.to_bits(), r.status.bits())
}
pub fn st_name(s: u8) -> String {
    let mut v = vec![];
    for (b, n) in [(1, "INVALID_OP"), (2, "DIV_BY_ZERO"), (4, "OVERFLOW"), (8, "UNDERFLOW"), (16, "INEXACT")] {
        if s & b != 0 {
            v.push(n);
        }
    }
    if s >> 5 != 0 {
        v.push("?");
    }
    if v.is_empty() {
        "OK".into()
    } else {
        v.join("|")
    }
}

/// User-defined formats.
macro_rules! custom {
    ($($name:ident = $id:literal ($b:literal : $e:literal) $no:literal;)*) => { $(
        pub struct $name;
        impl Semantics for $name {
            const BITS: usize = $b;
            const EXP_BITS: usize = $e;
            const NONFINITE_BEHAVIOR: NonfiniteBehavior =
                if $no { NonfiniteBehavior::NanOnly } else { NonfiniteBehavior::IEEE754 };
        }
        impl Fp for ieee::IeeeFloat<$name> {
            const FMT: Fmt = Fmt::new(stringify!($name), $id, $b, $e, $no);
            fn via(self, wide: bool) -> Self {
                via_body!(self, wide)
            }
        }
    )* };
}
custom! {
    C6e3 = 10 (6:3) false;
    C8e4 = 11 (8:4) false;
    C7e4 = 12 (7:4) false;
    C9e5 = 13 (9:5) false;
    C10e4 = 14 (10:4) false;
    C12e6 = 15 (12:6) false;
    Tf32 = 16 (19:8) false;
    Fp24 = 17 (24:7) false;
    C70e10 = 18 (70:10) false;
    C96e15 = 19 (96:15) false;
    C80e16p65 = 20 (80:15) false;
    C123e9 = 21 (123:9) false;
    C128e8 = 22 (128:8) false;
    N6e3 = 23 (6:3) true;
    N7e4 = 24 (7:4) true;
    N9e4 = 25 (9:4) true;
    N16e6 = 26 (16:6) true;
    N40e9 = 27 (40:9) true;
    N128e11 = 28 (128:11) true;
}

use crate::model::Out;
use crate::run::{case, nontriv, Case, Ctx, NOMODE};

/// One two-operand call, compared with the oracle.
#[inline]
pub fn ev2<T: Fp>(ctx: &mut Ctx, op: usize, name: &'static str, a: u128, b: u128, mode: u8, want: &Out, f: impl Fn(T, T, Round) -> StatusAnd<T>) {
    let c = case(name, T::FMT.name, mode, &[a, b]);
    let r = rm(if mode == NOMODE { 0 } else { mode });
    if let Some(got) = ctx.sut(&c, || sv(f(lv::<T>(a), lv2::<T>(b), r))) {
        ctx.check(op, &T::FMT, &c, got, want, nontriv(want.cls));
    }
}
/// One one-operand call, compared with the oracle.
#[inline]
pub fn ev1<T: Fp>(ctx: &mut Ctx, op: usize, name: &'static str, a: u128, mode: u8, want: &Out, f: impl Fn(T, Round) -> StatusAnd<T>) {
    let c = case(name, T::FMT.name, mode, &[a]);
    let r = rm(if mode == NOMODE { 0 } else { mode });
    if let Some(got) = ctx.sut(&c, || sv(f(lv::<T>(a), r))) {
        ctx.check(op, &T::FMT, &c, got, want, nontriv(want.cls));
    }
}
/// A call answering something other than bits and status; `show` renders both answers.
#[inline]
pub fn ev_eq<R: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, op: usize, fid: u8, c: &Case, cls: crate::model::Cls, nontrivial: bool, want: &R, f: impl FnOnce() -> R) {
    if let Some(got) = ctx.sut(c, f) {
        ctx.seen(op, fid, c.mode, cls, nontrivial, crate::run::hash_args(op as u64, &c.args[..c.n as usize]));
        ctx.sample(|| format!("{} -> {:?}", c.describe(), got));
        if got != *want {
            ctx.fail(c, &format!("got {:?}, expected {:?}", got, want));
        }
    }
}

pub const NC: u64 = 19;
/// Run `$body` with `$T` bound to the user-defined format number `$i` (0-based).
#[macro_export]
macro_rules! by_custom {
    ($i:expr, $T:ident => $body:expr) => {
        match $i {
            0 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C6e3>; $body }
            1 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C8e4>; $body }
            2 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C7e4>; $body }
            3 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C9e5>; $body }
            4 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C10e4>; $body }
            5 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C12e6>; $body }
            6 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::Tf32>; $body }
            7 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::Fp24>; $body }
            8 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C70e10>; $body }
            9 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C96e15>; $body }
            10 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C80e16p65>; $body }
            11 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C123e9>; $body }
            12 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::C128e8>; $body }
            13 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::N6e3>; $body }
            14 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::N7e4>; $body }
            15 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::N9e4>; $body }
            16 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::N16e6>; $body }
            17 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::N40e9>; $body }
            18 => { type $T = $crate::fp::ieee::IeeeFloat<$crate::fp::N128e11>; $body }
            _ => unreachable!(),
        }
    };
}

/// The value an encoding denotes, more often than not taken from the end of a short
/// computation instead of straight from its bits: the answer of any later operation must
/// not depend on that. (If the computation gives anything but the same encoding, or
/// panics, the value is decoded directly; the monitors of those operations report it.)
#[inline]
pub fn lv<T: Fp>(bits: u128) -> T {
    alive(bits, crate::run::salt(bits))
}
/// The same for the second operand: equal operands get different histories.
#[inline]
pub fn lv2<T: Fp>(bits: u128) -> T {
    alive(bits, crate::run::salt(bits).rotate_right(20))
}
/// The same for the third.
#[inline]
pub fn lv3<T: Fp>(bits: u128) -> T {
    alive(bits, crate::run::salt(bits).rotate_right(40))
}
#[inline]
fn alive<T: Fp>(bits: u128, h: u64) -> T {
    if h & 1 == 0 {
        return T::from_bits(bits);
    }
    crate::run::quietly(|| {
        let x = T::from_bits(bits);
        let y = made(x, h >> 1, T::via);
        if y.to_bits() == bits { Some(y) } else { None }
    })
    .unwrap_or_else(|| T::from_bits(bits))
}
/// The same for any implementation of the trait.
#[inline]
pub fn lvf<T: Float>(bits: u128) -> T {
    let h = crate::run::salt(bits);
    if h & 1 == 0 {
        return T::from_bits(bits);
    }
    crate::run::quietly(|| {
        let y = made(T::from_bits(bits), h >> 1, |x, _| x);
        if y.to_bits() == bits { Some(y) } else { None }
    })
    .unwrap_or_else(|| T::from_bits(bits))
}

fn one<T: Float>() -> T {
    T::from_u128(1).value
}

fn made<T: Float>(x: T, h: u64, via: fn(T, bool) -> T) -> T {
    let sign = if x.is_negative() { -one::<T>() } else { one::<T>() };
    let k = (h >> 8) as i32;
    match x.category() {
        Category::Zero => match h % 16 {
            0 => sign.scalbn(i32::MIN),
            1 => sign.scalbn(-(k & 0xffff) - 20000),
            2 => x.scalbn(k),
            3 => T::SMALLEST.mul_r(T::SMALLEST.copy_sign(x), Round::TowardZero).value,
            4 => sign.c_fmod(one()).value,
            5 => T::SMALLEST.copy_sign(x).round_to_integral(Round::TowardZero).value,
            6 => if x.is_negative() { (-T::SMALLEST).next_up().value } else { T::SMALLEST.next_down().value },
            7 => (x / one()).value,
            8 => sign.add_r(-sign, if x.is_negative() { Round::TowardNegative } else { Round::NearestTiesToEven }).value,
            9 => (x + x).value,
            10 => x.frexp(&mut 0),
            11 => (sign / T::INFINITY).value,
            12 => via(x, h >> 4 & 1 == 0),
            13 => x.mul_add(one(), x).value,
            14 => T::from_str_r(if x.is_negative() { "-0x0.0p3" } else { "+0x0p-9" }, Round::NearestTiesToEven).map_or(x, |v| v.value),
            _ => T::SMALLEST.copy_sign(x).scalbn(-1),
        },
        Category::Infinity => match h % 10 {
            0 => sign.scalbn(i32::MAX),
            1 => (sign / T::ZERO).value,
            2 => (T::largest() + T::largest()).value.copy_sign(x),
            3 => (x - sign).value,
            4 => (x * one()).value,
            5 => if x.is_negative() { (-T::largest()).next_down().value } else { T::largest().next_up().value },
            6 => via(x, h >> 4 & 1 == 0),
            7 => x.mul_add(one(), -x.copy_sign(one())).value,
            8 => (T::largest() * T::largest().copy_sign(x)).value,
            _ => T::from_str_r(if x.is_negative() { "-inf" } else { "Inf" }, Round::NearestTiesToEven).map_or(x, |v| v.value),
        },
        Category::NaN => match h % 10 {
            0 => (x + one()).value,
            1 => (one::<T>() - x).value,
            2 => (x * x).value,
            3 => (x / one()).value,
            4 => x.mul_add(one(), one()).value,
            5 => x.next_up().value,
            6 => x.scalbn(k % 100),
            7 => x.frexp(&mut 0),
            8 => via(x, true),
            _ => (-x.abs()).copy_sign(x),
        },
        Category::Normal => match h % 20 {
            0 => -(-x),
            1 => (x + T::ZERO).value,
            2 => (x * one()).value,
            3 => (x / one()).value,
            4 => x.mul_add(one(), T::ZERO).value,
            5 => x.next_up().value.next_down().value,
            6 => x.next_down().value.next_up().value,
            7 => x.scalbn(k % 200).scalbn(-(k % 200)),
            8 => {
                let mut e = 0;
                let y = x.frexp(&mut e);
                y.scalbn(e)
            }
            9 => via(x, h >> 4 & 1 == 0),
            10 => (x % T::INFINITY).value,
            11 => {
                let y = x.scalbn(-1);
                (y + y).value
            }
            12 => {
                let y = x.scalbn(1);
                (y - x).value
            }
            13 => x.round_to_integral(Round::TowardZero).value,
            14 => T::from_i128(x.to_i128(128).value).value,
            15 => x.min(T::NAN),
            16 => x.maximum(x),
            17 => {
                // put together from an integer and a power of two
                let e = x.ilogb() - (T::PRECISION as i32 - 1);
                T::from_i128(x.scalbn(-e).to_i128(128).value).value.scalbn(e)
            }
            18 => x.ieee_rem(T::largest()).value,
            _ => (-x.abs()).copy_sign(x),
        },
    }
}
