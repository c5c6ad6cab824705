//! Double-number formats over any element format: the exact meaning of a pair, and generators.

use crate::big::Big;
use crate::dd::{exact_sum, top};
use crate::gen;
use crate::model::{self, Cls, Fmt, Out, V};
use crate::rng::Rng;

/// A pair format: its elements, and the arithmetic of twice the precision that stands in for it.
#[derive(Clone, Copy)]
pub struct Pf {
    pub name: &'static str,
    pub d: Fmt,
    pub w: Fmt,
}

impl Pf {
    pub const fn of(name: &'static str, d: Fmt) -> Pf {
        let w = Fmt { name, id: d.id, bits: 0, ebits: d.ebits, p: 2 * d.p, emin: d.emin + d.p, emax: d.emax, nanonly: false, x87: false };
        Pf { name, d, w }
    }
    pub fn join(&self, hi: u128, lo: u128) -> u128 {
        hi | lo << self.d.bits
    }
    pub fn parts(&self, b: u128) -> (u128, u128) {
        (b & self.d.all_mask(), b >> self.d.bits)
    }
    pub fn vparts(&self, b: u128) -> (V, V) {
        let (h, l) = self.parts(b);
        (model::decode(&self.d, h), model::decode(&self.d, l))
    }
    pub fn enc(&self, v: &V) -> u128 {
        model::encode(&self.d, v)
    }
    /// The value of a pair: that of the high part for specials, the exact sum otherwise.
    pub fn value(&self, b: u128) -> V {
        let (h, l) = self.vparts(b);
        if h.is_fin() && l.is_finite() { exact_sum(&h, &l) } else { h }
    }
    /// For a finite non-zero high part: high = value rounded to the element format. Otherwise a zero low part.
    pub fn normalised(&self, b: u128) -> bool {
        let (h, l) = self.vparts(b);
        if !h.is_fin() || l.is_zero() {
            return l.is_zero();
        }
        if !l.is_fin() {
            return false;
        }
        match exact_sum(&h, &l) {
            V::Fin { neg, m, e } => self.enc(&model::round_real(&self.d, neg, &m, e, false, model::RNE).v) == self.parts(b).0,
            _ => false,
        }
    }
    /// The pair's value rounded to twice the precision.
    pub fn wide(&self, b: u128) -> V {
        match self.value(b) {
            V::Fin { neg, m, e } => model::round_real(&self.w, neg, &m, e, false, model::RNE).v,
            V::Nan { neg, .. } => model::default_nan(&self.w, neg),
            v => v,
        }
    }
    /// Split a value of twice the precision into a normalised pair (infinity when the high part overflows).
    pub fn split(&self, v: &V) -> u128 {
        let V::Fin { neg, m, e } = v else { return self.join(self.enc(&self.plain(v)), 0) };
        let hi = model::round_real(&self.d, *neg, m, *e, false, model::RNE).v;
        if !hi.is_fin() {
            return self.join(self.enc(&hi), 0);
        }
        let lo = match exact_sum(v, &hi.negated()) {
            V::Fin { neg, m, e } => model::round_real(&self.d, neg, &m, e, false, model::RNE),
            _ => return self.join(self.enc(&hi), 0),
        };
        assert!(lo.st == 0, "the remainder must be an element");
        self.join(self.enc(&hi), self.enc(&lo.v))
    }
    fn plain(&self, v: &V) -> V {
        match v {
            V::Nan { neg, .. } => model::default_nan(&self.d, *neg),
            v => v.clone(),
        }
    }
    pub fn negate(&self, b: u128) -> u128 {
        let (h, l) = self.parts(b);
        let s = self.d.sign_bit();
        self.join(h ^ s, if l & !s == 0 { l } else { l ^ s })
    }
    pub fn low_zero(&self, b: u128) -> bool {
        self.parts(b).1 & !self.d.sign_bit() == 0
    }
    /// Every finite normalised non-zero pair (small elements only).
    pub fn all(&self) -> Vec<u128> {
        let n = 1u128 << (2 * self.d.bits);
        (0..n).filter(|b| self.value(*b).is_fin() && self.normalised(*b)).collect()
    }

    // ------------------------------------------------------------ generators

    /// A legal low part for `hi`, or zero.
    pub fn low_for(&self, r: &mut Rng, hi: u128) -> u128 {
        let d = &self.d;
        let v = model::decode(d, hi);
        let half = if v.is_fin() { v.ilogb() - d.p } else { return 0 };
        if half < d.qmin() {
            return 0;
        }
        let fw = d.p - 1;
        for _ in 0..10 {
            let neg = r.bool();
            let lo = match r.below(8) {
                0 => return if r.chance(1, 4) { d.sign_bit() } else { 0 },
                1 => gen::with_exp(d, neg, half, 0),
                2 => {
                    let b = gen::with_exp(d, neg, half, 0);
                    gen::nudge(r, d, b, 2)
                }
                3 => {
                    let p = gen::pattern(r, fw);
                    gen::with_exp(d, neg, half - 1, p)
                }
                4 => gen::with_exp(d, neg, half - 1, (1u128 << fw) - 1),
                5 | 6 => {
                    let (p, k) = (gen::pattern(r, fw), r.range(0, d.p + 1));
                    gen::with_exp(d, neg, half - 1 - k, p)
                }
                _ => {
                    let (p, e) = (gen::pattern(r, fw), r.range(d.qmin(), half));
                    gen::with_exp(d, neg, e, p)
                }
            };
            let b = self.join(hi, lo);
            if self.normalised(b) && model::decode(d, lo).is_fin() {
                return lo;
            }
        }
        0
    }
    pub fn finite_in(&self, r: &mut Rng, lo: i64, hi: i64) -> u128 {
        let (a, b) = (self.d.qmin(), self.d.emax);
        let h = gen::finite_in(r, &self.d, lo.clamp(a, b), hi.clamp(a, b));
        let l = self.low_for(r, h);
        self.join(h, l)
    }
    pub fn finite(&self, r: &mut Rng) -> u128 {
        let d = &self.d;
        match r.below(6) {
            0 => self.finite_in(r, d.emax - 2, d.emax),
            1 => self.finite_in(r, -d.p, d.p),
            2 => self.finite_in(r, d.qmin(), d.emin + 2 * d.p),
            _ => self.finite_in(r, d.qmin(), d.emax),
        }
    }
    pub fn special(&self, r: &mut Rng) -> u128 {
        match r.below(6) {
            0 | 1 => if r.bool() { self.d.sign_bit() } else { 0 },
            2 | 3 => gen::inf(&self.d, r.bool()),
            _ => gen::nan(r, &self.d),
        }
    }
    pub fn any(&self, r: &mut Rng) -> u128 {
        if r.chance(1, 10) { self.special(r) } else { self.finite(r) }
    }
    /// A pair close to `b`.
    pub fn near(&self, r: &mut Rng, b: u128) -> u128 {
        let (h, l) = self.parts(b);
        for _ in 0..6 {
            let c = match r.below(5) {
                0 => self.join(h, l ^ self.d.sign_bit()),
                1 => {
                    let n = gen::nudge(r, &self.d, l, 2);
                    self.join(h, n)
                }
                2 => {
                    let n = gen::nudge(r, &self.d, h, 1);
                    self.join(n, l)
                }
                3 => self.join(h, 0),
                _ => {
                    let l = self.low_for(r, h);
                    self.join(h, l)
                }
            };
            if self.value(c).is_fin() && self.normalised(c) {
                return c;
            }
        }
        b
    }
    /// Two pairs: unrelated, of similar size, nearly cancelling, with a product near a range end.
    pub fn two(&self, r: &mut Rng) -> (u128, u128) {
        let a = self.finite(r);
        let e = top(&self.value(a)) - 1;
        let p = self.d.p;
        let b = match r.below(10) {
            0 => self.any(r),
            1 => self.finite_in(r, e - 2 * p - 2, e + 2 * p + 2),
            2 => self.finite_in(r, e - 2, e + 2),
            3 | 4 => {
                let n = self.near(r, a);
                self.negate(n)
            }
            5 => self.near(r, a),
            6 => self.finite_in(r, self.d.emax - e - 2, self.d.emax - e + 1),
            7 => self.finite_in(r, self.d.emin - e - 2, self.d.emin - e + 2 * p),
            8 => self.finite_in(r, -p, p),
            _ => {
                let h = self.parts(a).0 ^ if r.bool() { self.d.sign_bit() } else { 0 };
                let l = self.low_for(r, h);
                self.join(h, l)
            }
        };
        if r.bool() { (a, b) } else { (b, a) }
    }

    // ------------------------------------------------------------ the stand-in arithmetic

    pub fn standin(&self, op: usize, a: &V, b: &V, c: &V, mode: u8) -> Out {
        use crate::model::finish;
        use crate::ops::*;
        let f = &self.w;
        match op {
            ADD => finish(f, &model::add(f, a, b), mode),
            SUB => finish(f, &model::sub(f, a, b), mode),
            MUL => finish(f, &model::mul(f, a, b), mode),
            DIV => finish(f, &model::div(f, a, b), mode),
            FMA => finish(f, &model::fma(f, a, b, c), mode),
            FMOD => finish(f, &model::fmod(f, a, b), mode),
            REM => finish(f, &model::ieee_rem(f, a, b), mode),
            RTI => model::round_to_integral(f, a, mode),
            NEXT_UP => model::next_up(f, a),
            NEXT_DOWN => model::next_down(f, a),
            _ => unreachable!(),
        }
    }
}

pub fn product(a: &V, b: &V) -> V {
    match (a, b) {
        (V::Fin { neg: x, m: am, e: ae }, V::Fin { neg: y, m: bm, e: be }) => V::Fin { neg: x != y, m: am.mul(bm), e: ae + be },
        _ => V::Zero(a.neg() != b.neg()),
    }
}
/// The exponent of the lowest set bit.
pub fn lsb(v: &V) -> i64 {
    match v {
        V::Fin { m, e, .. } => m.trailing_zeros() + e,
        _ => i64::MAX / 4,
    }
}
pub fn mag(v: &V) -> V {
    if v.neg() { v.negated() } else { v.clone() }
}
pub fn scaled(v: &V, n: i64) -> V {
    match v {
        V::Fin { neg, m, e } => V::Fin { neg: *neg, m: m.clone(), e: e + n },
        v => v.clone(),
    }
}
pub fn power(e: i64) -> V {
    V::Fin { neg: false, m: Big::from_u128(1), e }
}
pub fn cls(d: &Fmt, v: &V) -> Cls {
    if v.is_fin() { Cls::Exact } else { model::vcls(d, v) }
}
