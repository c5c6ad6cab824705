//! One dispatcher over the public operations, twice: run on the code under test, and
//! predicted by the reference model from operand encodings alone.

use crate::by_fmt;
use crate::fp::*;
use crate::grammar::{self, P};
use crate::model::{self, Class, Cls, Fmt, Out, V};
use crate::run::hash_str;
use std::cmp::Ordering;

pub const NAMES: &[&str] = &[
    "add_r", "sub_r", "mul_r", "div_r", "mul_add_r", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down", "scalbn_r", "frexp_r", "neg",
    "abs", "copy_sign", "min", "max", "minimum", "maximum", "convert there and back", "from_u128_r", "from_i128_r", "to_u128_r", "to_i128_r",
    "display and parse", "from_str_r", "queries", "compare", "get_exact_inverse", "qnan", "snan", "from_bits(to_bits)",
];
pub const ADD: usize = 0;
pub const SUB: usize = 1;
pub const MUL: usize = 2;
pub const DIV: usize = 3;
pub const FMA: usize = 4;
pub const FMOD: usize = 5;
pub const REM: usize = 6;
pub const RTI: usize = 7;
pub const NEXT_UP: usize = 8;
pub const NEXT_DOWN: usize = 9;
pub const SCALBN: usize = 10;
pub const FREXP: usize = 11;
pub const NEG: usize = 12;
pub const ABS: usize = 13;
pub const COPY_SIGN: usize = 14;
pub const MIN: usize = 15;
pub const MAX: usize = 16;
pub const MINIMUM: usize = 17;
pub const MAXIMUM: usize = 18;
pub const CONVERT: usize = 19;
pub const FROM_U: usize = 20;
pub const FROM_I: usize = 21;
pub const TO_U: usize = 22;
pub const TO_I: usize = 23;
pub const TEXT: usize = 24;
pub const PARSE: usize = 25;
pub const QUERY: usize = 26;
pub const CMP: usize = 27;
pub const INVERSE: usize = 28;
pub const QNAN: usize = 29;
pub const SNAN: usize = 30;
pub const RECODE: usize = 31;
pub const COUNT: usize = 32;

/// No status is returned by the operation.
pub const NOST: u32 = 0xffff;

/// Conversions out of and back into a format, by number of the other format.
pub trait Conv: Sized {
    /// (bits there, status there, loses there)
    fn conv_to(self, id: u64, mode: u8) -> (u128, u8, bool);
    fn conv_from(id: u64, bits: u128, mode: u8) -> (Self, u8, bool);
}
impl<S: Semantics> Conv for ieee::IeeeFloat<S> {
    fn conv_to(self, id: u64, mode: u8) -> (u128, u8, bool) {
        by_fmt!(id, U => {
            let mut l = id & 1 != 0;
            let r: StatusAnd<U> = self.convert_r(rm(mode), &mut l);
            (r.value.to_bits(), r.status.bits(), l)
        })
    }
    fn conv_from(id: u64, bits: u128, mode: u8) -> (Self, u8, bool) {
        by_fmt!(id, U => {
            let mut l = id & 1 == 0;
            let r: StatusAnd<Self> = U::from_bits(bits).convert_r(rm(mode), &mut l);
            (r.value, r.status.bits(), l)
        })
    }
}

/// Double-double has no conversions to other formats; the slot re-decodes instead.
impl<F: Float> Conv for rustc_apfloat::ppc::DoubleFloat<F>
where
    Self: Float,
{
    fn conv_to(self, _: u64, _: u8) -> (u128, u8, bool) {
        (self.to_bits(), 0, false)
    }
    fn conv_from(_: u64, bits: u128, _: u8) -> (Self, u8, bool) {
        (Self::from_bits(bits), 0, false)
    }
}

#[derive(Clone, Copy)]
pub struct Args<T> {
    pub a: T,
    pub b: T,
    pub c: T,
    pub n: u128,
    pub mode: u8,
}

/// (precision, width, alternate) from a style number.
pub fn style(n: u128) -> (Option<usize>, Option<usize>, bool) {
    let n = n as u64;
    let p = if n & 1 != 0 { Some(((n >> 8) % 24) as usize) } else { None };
    let w = if n & 2 != 0 { Some(((n >> 16) % 30) as usize) } else { None };
    (p, w, n & 4 != 0)
}
pub fn render<T: std::fmt::Display>(x: &T, p: Option<usize>, w: Option<usize>, alt: bool) -> String {
    match (p, w, alt) {
        (None, None, false) => format!("{}", x),
        (None, None, true) => format!("{:#}", x),
        (None, Some(w), false) => format!("{:1$}", x, w),
        (None, Some(w), true) => format!("{:#1$}", x, w),
        (Some(p), None, false) => format!("{:.1$}", x, p),
        (Some(p), None, true) => format!("{:#.1$}", x, p),
        (Some(p), Some(w), false) => format!("{:1$.2$}", x, w, p),
        (Some(p), Some(w), true) => format!("{:#1$.2$}", x, w, p),
    }
}

pub fn ord_code(o: Option<Ordering>) -> u128 {
    match o {
        None => 3,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    }
}

/// Run one operation on the code under test: (value, status, extra observation).
pub fn sut<T: Float + Conv>(op: usize, g: &Args<T>, s: &str) -> (T, u32, u128) {
    let (a, b, c, r) = (g.a, g.b, g.c, rm(g.mode));
    let st = |x: StatusAnd<T>| (x.value, x.status.bits() as u32, 0);
    let pl = |x: T| (x, NOST, 0);
    match op {
        ADD => st(a.add_r(b, r)),
        SUB => st(a.sub_r(b, r)),
        MUL => st(a.mul_r(b, r)),
        DIV => st(a.div_r(b, r)),
        FMA => st(a.mul_add_r(b, c, r)),
        FMOD => st(a.c_fmod(b)),
        REM => st(a.ieee_rem(b)),
        RTI => st(a.round_to_integral(r)),
        NEXT_UP => st(a.next_up()),
        NEXT_DOWN => st(a.next_down()),
        SCALBN => pl(a.scalbn_r(g.n as i32, r)),
        FREXP => {
            let mut e = 4711;
            let v = a.frexp_r(&mut e, r);
            (v, NOST, e as u32 as u128)
        }
        NEG => pl(-a),
        ABS => pl(a.abs()),
        COPY_SIGN => pl(a.copy_sign(b)),
        MIN => pl(a.min(b)),
        MAX => pl(a.max(b)),
        MINIMUM => pl(a.minimum(b)),
        MAXIMUM => pl(a.maximum(b)),
        CONVERT => {
            let id = (g.n % NB as u128) as u64;
            let (x, s1, l1) = a.conv_to(id, g.mode);
            let (v, s2, l2) = T::conv_from(id, x, g.mode);
            (v, s1 as u32 | (l1 as u32) << 6 | (s2 as u32) << 8 | (l2 as u32) << 14, x)
        }
        FROM_U => st(T::from_u128_r(g.n, r)),
        FROM_I => st(T::from_i128_r(g.n as i128, r)),
        TO_U => {
            let mut ex = g.n & 1 != 0;
            let v = a.to_u128_r(width(g.n), r, &mut ex);
            (a, v.status.bits() as u32 | (ex as u32) << 6, v.value)
        }
        TO_I => {
            let mut ex = g.n & 1 != 0;
            let v = a.to_i128_r(width(g.n), r, &mut ex);
            (a, v.status.bits() as u32 | (ex as u32) << 6, v.value as u128)
        }
        TEXT => {
            let (p, w, alt) = style(g.n);
            let t = render(&a, p, w, alt);
            match T::from_str_r(&t, r) {
                Ok(v) => (v.value, v.status.bits() as u32, hash_str(&t) as u128),
                Err(_) => (a, 0xdead, hash_str(&t) as u128),
            }
        }
        PARSE => match T::from_str_r(s, r) {
            Ok(v) => (v.value, v.status.bits() as u32, 1),
            Err(_) => (a, NOST, 0),
        },
        QUERY => {
            let mut q = 0u128;
            for (i, y) in [
                a.is_negative(), a.is_zero(), a.is_finite(), a.is_normal(), a.is_denormal(), a.is_infinite(), a.is_nan(), a.is_signaling(), a.is_non_zero(),
                a.is_finite_non_zero(), a.is_pos_zero(), a.is_neg_zero(), a.is_pos_infinity(), a.is_neg_infinity(), a.is_smallest(),
                a.is_smallest_normalized(), a.is_largest(), a.is_integer(),
            ]
            .iter()
            .enumerate()
            {
                q |= (*y as u128) << i;
            }
            q |= (a.category() as u128) << 20;
            q |= (a.ilogb() as u32 as u128) << 32;
            (a, NOST, q)
        }
        CMP => {
            let o = ord_code(a.partial_cmp(&b));
            let q = o | (a.bitwise_eq(b) as u128) << 2 | ((a < b) as u128) << 3 | ((a == b) as u128) << 4;
            let q = if a.is_finite_non_zero() && b.is_finite_non_zero() { q | (1 + ord_code(Some(a.cmp_abs_normal(b)))) << 8 } else { q };
            (a, NOST, q)
        }
        INVERSE => match a.get_exact_inverse() {
            Some(v) => (v, NOST, 1),
            None => (a, NOST, 0),
        },
        QNAN => pl(T::qnan(if g.n & 3 == 3 { None } else { Some(g.n) })),
        SNAN => pl(T::snan(if g.n & 3 == 3 { None } else { Some(g.n) })),
        _ => pl(T::from_bits(a.to_bits())),
    }
}

pub fn width(n: u128) -> usize {
    1 + ((n >> 1) % 128) as usize
}

pub struct Want {
    pub bits: u128,
    /// A second acceptable encoding (where the documentation leaves a choice).
    pub alt: u128,
    /// Any quiet NaN of the sign of `bits` will do (payload unspecified).
    pub loose: bool,
    pub st: u32,
    pub x: u128,
    pub cls: Cls,
}

pub fn query_bits(f: &Fmt, v: &V) -> u128 {
    let k = model::class(f, v);
    let fin = matches!(k, Class::Sub | Class::Normal);
    let mag = V::negated(v);
    let pos = if v.neg() { mag } else { v.clone() };
    let is = |m: u128, e: i64| fin && model::encode(f, &pos) == model::encode(f, &V::Fin { neg: false, m: crate::big::Big::from_u128(m), e });
    let n = v.neg();
    let b = [
        n, k == Class::Zero, fin || k == Class::Zero, k == Class::Normal, k == Class::Sub, k == Class::Inf, matches!(k, Class::Qnan | Class::Snan),
        k == Class::Snan, k != Class::Zero, fin, k == Class::Zero && !n, k == Class::Zero && n, k == Class::Inf && !n, k == Class::Inf && n,
        is(1, f.qmin()), is(1, f.emin), is(f.max_sig(), f.emax - (f.p - 1)), model::is_integer(v),
    ];
    let mut q = 0u128;
    for (i, y) in b.iter().enumerate() {
        q |= (*y as u128) << i;
    }
    let cat = match k {
        Class::Inf => Category::Infinity,
        Class::Qnan | Class::Snan => Category::NaN,
        Class::Zero => Category::Zero,
        _ => Category::Normal,
    };
    q |= (cat as u128) << 20;
    let e = match v {
        V::Nan { .. } => i32::MIN,
        V::Inf(_) => i32::MAX,
        V::Zero(_) => i32::MIN + 1,
        _ => v.ilogb() as i32,
    };
    q | (e as u32 as u128) << 32
}

/// Acceptable answers of a min/max variant.
pub fn pick(f: &Fmt, a: &V, b: &V, want_less: bool, nums: bool) -> (u128, u128) {
    let e = |v: &V| model::encode(f, v);
    let one = |v: &V| (e(v), e(v));
    match (a.is_nan(), b.is_nan()) {
        (true, true) => return if nums { (e(a), e(b)) } else { one(a) },
        (true, false) => return one(if nums { b } else { a }),
        (false, true) => return one(if nums { a } else { b }),
        _ => {}
    }
    match model::cmp(a, b).unwrap() {
        Ordering::Equal => {
            if a.is_zero() && a.neg() != b.neg() {
                if nums {
                    (e(a), e(b))
                } else {
                    one(&V::Zero(want_less))
                }
            } else {
                one(a)
            }
        }
        o => one(if (o == Ordering::Less) == want_less { a } else { b }),
    }
}

/// What the operation must answer, from the operand encodings.
pub fn expect(f: &Fmt, op: usize, a: u128, b: u128, c: u128, n: u128, mode: u8, s: &str) -> Want {
    let (va, vb) = (model::decode(f, a), model::decode(f, b));
    let of = |o: Out, st: u32| {
        let bits = model::encode(f, &o.v);
        Want { bits, alt: bits, loose: false, st, x: 0, cls: o.cls }
    };
    let full = |o: Out| {
        let st = o.st as u32;
        of(o, st)
    };
    let keep = |x: u128, st: u32, cls: Cls| {
        let bits = model::encode(f, &va);
        Want { bits, alt: bits, loose: false, st, x, cls }
    };
    let val = |v: V| {
        let cls = model::vcls(f, &va);
        let bits = model::encode(f, &v);
        Want { bits, alt: bits, loose: false, st: NOST, x: 0, cls }
    };
    let cls_a = model::vcls(f, &va);
    match op {
        ADD => full(model::finish(f, &model::add(f, &va, &vb), mode)),
        SUB => full(model::finish(f, &model::sub(f, &va, &vb), mode)),
        MUL => full(model::finish(f, &model::mul(f, &va, &vb), mode)),
        DIV => full(model::finish(f, &model::div(f, &va, &vb), mode)),
        FMA => full(model::finish(f, &model::fma(f, &va, &vb, &model::decode(f, c)), mode)),
        FMOD => full(model::finish(f, &model::fmod(f, &va, &vb), mode)),
        REM => full(model::finish(f, &model::ieee_rem(f, &va, &vb), mode)),
        RTI => full(model::round_to_integral(f, &va, mode)),
        NEXT_UP => full(model::next_up(f, &va)),
        NEXT_DOWN => full(model::next_down(f, &va)),
        SCALBN => of(model::scalbn(f, &va, n as i32 as i64, mode), NOST),
        FREXP => {
            let (v, e) = match &va {
                V::Nan { .. } => (model::nan_result(f, &[&va]).unwrap().v, i32::MIN),
                V::Inf(_) => (va.clone(), i32::MAX),
                V::Zero(_) => (va.clone(), 0),
                V::Fin { neg, m, .. } => (V::Fin { neg: *neg, m: m.clone(), e: -m.bits() }, va.ilogb() as i32 + 1),
            };
            let mut w = val(v);
            w.x = e as u32 as u128;
            w
        }
        NEG => val(va.negated()),
        ABS => val(if va.neg() { va.negated() } else { va.clone() }),
        COPY_SIGN => val(if va.neg() != vb.neg() { va.negated() } else { va.clone() }),
        MIN | MAX | MINIMUM | MAXIMUM => {
            let (x, y) = pick(f, &va, &vb, op == MIN || op == MINIMUM, op == MIN || op == MAX);
            Want { bits: x, alt: y, loose: false, st: NOST, x: 0, cls: cls_a }
        }
        CONVERT => {
            let u = &model::BUILTIN[(n % NB as u128) as usize];
            let (o1, l1) = model::convert(f, u, &va, mode);
            let ub = model::encode(u, &o1.v);
            let (o2, l2) = model::convert(u, f, &o1.v, mode);
            let mut w = full(o2);
            w.loose = va.is_nan() && (f.nanonly || u.nanonly) || o1.v.is_nan() && u.nanonly && !f.nanonly;
            w.st = o1.st as u32 | (l1 as u32) << 6 | w.st << 8 | (l2 as u32) << 14;
            w.x = ub;
            w.cls = o1.cls;
            w
        }
        FROM_U => full(model::from_int(f, false, n, mode)),
        FROM_I => full(model::from_int(f, (n as i128) < 0, (n as i128).unsigned_abs(), mode)),
        TO_U | TO_I => {
            let (v, st, ex, cls) = model::to_int(&va, width(n) as u32, op == TO_I, mode);
            keep(v, st as u32 | (ex as u32) << 6, cls)
        }
        TEXT => {
            let (p, w, alt) = style(n);
            let t = model::display(f, &va, p, w, alt);
            let mut r = match grammar::parse(&t) {
                P::Reject => keep(0, 0xdead, Cls::Special),
                q => full(model::finish(f, &grammar::exact(f, &q), mode)),
            };
            r.x = hash_str(&t) as u128;
            r
        }
        PARSE => match grammar::parse(s) {
            P::Reject => keep(0, NOST, Cls::Special),
            q => {
                let mut w = full(model::finish(f, &grammar::exact(f, &q), mode));
                w.x = 1;
                w
            }
        },
        QUERY => keep(query_bits(f, &va), NOST, cls_a),
        CMP => {
            let o = model::cmp(&va, &vb);
            let q = ord_code(o)
                | ((model::encode(f, &va) == model::encode(f, &vb)) as u128) << 2
                | ((o == Some(Ordering::Less)) as u128) << 3
                | ((o == Some(Ordering::Equal)) as u128) << 4;
            let q = if va.is_fin() && vb.is_fin() { q | (1 + ord_code(Some(model::cmp_mag(&va, &vb)))) << 8 } else { q };
            keep(q, NOST, cls_a)
        }
        INVERSE => match model::exact_inverse(f, &va) {
            Some(v) => {
                let mut w = val(v);
                w.x = 1;
                w
            }
            None => keep(0, NOST, cls_a),
        },
        QNAN => val(model::make_nan(f, false, if n & 3 == 3 { None } else { Some(n) })),
        SNAN => val(model::make_nan(f, true, if n & 3 == 3 { None } else { Some(n) })),
        _ => keep(0, NOST, cls_a),
    }
}

impl Want {
    /// Does the observation satisfy the prediction?
    pub fn ok(&self, f: &Fmt, got: (u128, u32, u128), op: usize) -> bool {
        if self.loose {
            let (g, w) = (model::decode(f, got.0), model::decode(f, self.bits));
            // payload-dependent parts (the bits in the other format, the loss flags) are left open
            let mask = !(1u32 << 6 | 1 << 14);
            return g.is_nan() && !model::is_signaling(f, &g) && g.neg() == w.neg() && got.1 & mask == self.st & mask;
        }
        let _ = op;
        (got.0 == self.bits || got.0 == self.alt) && got.1 == self.st && got.2 == self.x
    }
    pub fn show(&self) -> String {
        format!("{:#x} status {:#x} extra {:#x}", self.bits, self.st, self.x)
    }
}

/// Operations whose cost or answer grows with the exponent: keep them away from extreme values of wide formats.
pub fn text_heavy(f: &Fmt, a: u128) -> bool {
    match model::decode(f, a) {
        v @ V::Fin { .. } => v.ilogb().abs() > 600,
        _ => false,
    }
}

/// How many float operands the operation reads.
pub fn arity(op: usize) -> usize {
    match op {
        FMA => 3,
        ADD | SUB | MUL | DIV | FMOD | REM | COPY_SIGN | MIN | MAX | MINIMUM | MAXIMUM | CMP => 2,
        FROM_U | FROM_I | QNAN | SNAN | PARSE => 0,
        _ => 1,
    }
}
pub fn takes_mode(op: usize) -> bool {
    matches!(op, ADD | SUB | MUL | DIV | FMA | RTI | SCALBN | FREXP | CONVERT | FROM_U | FROM_I | TO_U | TO_I | TEXT | PARSE)
}

/// Directed operands for an operation: (a, b, c, n, text).
pub fn args_for(r: &mut crate::rng::Rng, f: &Fmt, op: usize) -> (u128, u128, u128, u128, String) {
    use crate::gen;
    let mut s = String::new();
    let (mut a, mut b, mut c) = (gen::any(r, f), gen::any(r, f), gen::any(r, f));
    match op {
        ADD | SUB => (a, b) = gen::add_pair(r, f),
        MUL => (a, b) = gen::mul_pair(r, f),
        DIV => (a, b) = gen::div_pair(r, f),
        FMA => (a, b, c) = gen::fma_triple(r, f),
        FMOD | REM => (a, b) = gen::rem_pair(r, f),
        RTI | TO_U | TO_I => {
            if r.chance(3, 4) {
                a = gen::integral_arg(r, f)
            }
        }
        CMP | MIN | MAX | MINIMUM | MAXIMUM => {
            if r.bool() {
                let x = if r.bool() { a } else { a ^ f.sign_bit() };
                b = gen::nudge(r, f, x, 2)
            }
        }
        CONVERT => {}
        TEXT => {
            if text_heavy(f, a) && !r.chance(1, 40) {
                a = gen::finite_in(r, f, -300, 300)
            }
        }
        PARSE => {
            s = match r.below(4) {
                0 => crate::grammar::string(r),
                1 if f.emax < 3000 => {
                    let (mut d, mut e) = gen::boundary_decimal(r, f);
                    gen::perturb_decimal(r, &mut d, &mut e);
                    let neg = r.bool();
                    gen::spell_decimal(r, neg, &d, e)
                }
                2 => {
                    let x = gen::finite(r, f);
                    match model::decode(f, x) {
                        V::Fin { neg, m, e } => {
                            let k = r.below(9) as i64;
                            let m = m.shl(k).to_u128_checked().map(|v| v + r.below(1 << k) as u128);
                            match m {
                                Some(m) => format!("{}0x{:x}p{}", if neg { "-" } else { "" }, m, e - k),
                                None => "0x1p0".into(),
                            }
                        }
                        _ => "0x1p0".into(),
                    }
                }
                _ => format!("{}{}e{}", if r.bool() { "-" } else { "" }, r.u64() >> r.below(64), r.range(-40, 40)),
            }
        }
        _ => {}
    }
    let n = match op {
        SCALBN => {
            (match r.below(4) {
                0 => r.range(-2 * (f.emax + f.p), 2 * (f.emax + f.p)),
                1 => r.range(-f.p, f.p),
                2 => match model::decode(f, a) {
                    v @ V::Fin { .. } => f.emin - v.ilogb() + r.range(-f.p - 2, 2),
                    _ => 1,
                },
                _ => *r.pick(&[i32::MIN as i64, i32::MAX as i64, 0, 1, -1]),
            }) as i32 as u32 as u128
        }
        FROM_U | FROM_I => {
            let x = gen::int_arg(r, f);
            if r.bool() { x } else { x.wrapping_neg() }
        }
        TO_U | TO_I if r.bool() => {
            let e = match model::decode(f, a) {
                v @ V::Fin { .. } => v.ilogb(),
                _ => 5,
            };
            let w = (e + r.range(-1, 3)).clamp(1, 128);
            ((w as u128 - 1) << 1) | r.below(2) as u128
        }
        CONVERT => {
            let id = r.below(NB);
            if r.chance(2, 3) {
                a = gen::convert_arg(r, f, &model::BUILTIN[id as usize]);
            }
            id as u128 + NB as u128 * r.below(1 << 40) as u128
        }
        TEXT => r.u64() as u128,
        QNAN | SNAN => gen::pattern(r, 128),
        _ => r.u128(),
    };
    (a, b, c, n, s)
}
