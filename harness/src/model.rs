//! Executable reference model of binary floating-point formats: exact values,
//! one rounding function, IEEE-754 special cases, status flags.  It is driven by
//! a hand-written table of format parameters and never looks at the library.

use crate::big::Big;
use std::cmp::Ordering;

/// A binary format. `p` counts the integer bit.
#[derive(Clone, Copy, Debug)]
pub struct Fmt {
    pub name: &'static str,
    pub id: u8,
    pub bits: u32,
    pub ebits: u32,
    pub p: i64,
    pub emin: i64,
    pub emax: i64,
    pub nanonly: bool,
    pub x87: bool,
}

impl Fmt {
    /// An interchange-style format of `bits` total and `ebits` exponent bits.
    pub const fn new(name: &'static str, id: u8, bits: u32, ebits: u32, nanonly: bool) -> Fmt {
        let bias = (1i64 << (ebits - 1)) - 1;
        Fmt {
            name,
            id,
            bits,
            ebits,
            p: (bits - ebits) as i64,
            emin: 1 - bias,
            emax: if nanonly { bias + 1 } else { bias },
            nanonly,
            x87: false,
        }
    }
    pub const fn x87(id: u8) -> Fmt {
        Fmt { name: "X87", id, bits: 80, ebits: 15, p: 64, emin: -16382, emax: 16383, nanonly: false, x87: true }
    }
    /// Width of the stored significand field.
    pub fn fw(&self) -> u32 {
        if self.x87 {
            64
        } else {
            (self.p - 1) as u32
        }
    }
    pub fn sig_mask(&self) -> u128 {
        (1u128 << self.fw()) - 1
    }
    pub fn exp_mask(&self) -> u128 {
        (1u128 << self.ebits) - 1
    }
    pub fn all_mask(&self) -> u128 {
        if self.bits == 128 {
            !0
        } else {
            (1u128 << self.bits) - 1
        }
    }
    pub fn sign_bit(&self) -> u128 {
        1u128 << (self.bits - 1)
    }
    pub fn bias(&self) -> i64 {
        1 - self.emin
    }
    /// The largest finite significand at the largest exponent (as a P-bit integer).
    pub fn max_sig(&self) -> u128 {
        let all = (1u128 << self.p) - 1;
        if self.nanonly {
            all - 1
        } else {
            all
        }
    }
    /// The exponent of the last place of the smallest subnormal.
    pub fn qmin(&self) -> i64 {
        self.emin - (self.p - 1)
    }
    pub fn quiet_bit(&self) -> u128 {
        1u128 << (self.p - 2)
    }
}

pub const HALF: Fmt = Fmt::new("Half", 0, 16, 5, false);
pub const SINGLE: Fmt = Fmt::new("Single", 1, 32, 8, false);
pub const DOUBLE: Fmt = Fmt::new("Double", 2, 64, 11, false);
pub const QUAD: Fmt = Fmt::new("Quad", 3, 128, 15, false);
pub const BFLOAT: Fmt = Fmt::new("BFloat", 4, 16, 8, false);
pub const E5M2: Fmt = Fmt::new("Float8E5M2", 5, 8, 5, false);
pub const E4M3: Fmt = Fmt::new("Float8E4M3FN", 6, 8, 4, true);
pub const X87: Fmt = Fmt::x87(7);
pub const BUILTIN: [Fmt; 8] = [HALF, SINGLE, DOUBLE, QUAD, BFLOAT, E5M2, E4M3, X87];
/// The 106-bit stand-in arithmetic documented for double-double.
pub const F106: Fmt = Fmt {
    name: "DoubleDouble106",
    id: 8,
    bits: 0,
    ebits: 11,
    p: 106,
    emin: -1022 + 53,
    emax: 1023,
    nanonly: false,
    x87: false,
};

pub const OK: u8 = 0;
pub const INVALID: u8 = 1;
pub const DIVZERO: u8 = 2;
pub const OVERFLOW: u8 = 4;
pub const UNDERFLOW: u8 = 8;
pub const INEXACT: u8 = 16;

/// Rounding modes, by index.
pub const RNE: u8 = 0;
pub const RTP: u8 = 1;
pub const RTN: u8 = 2;
pub const RTZ: u8 = 3;
pub const RNA: u8 = 4;
pub const MODES: [u8; 5] = [RNE, RTP, RTN, RTZ, RNA];
pub const MODE_NAMES: [&str; 5] = ["NearestTiesToEven", "TowardPositive", "TowardNegative", "TowardZero", "NearestTiesToAway"];

pub fn mirror(mode: u8) -> u8 {
    match mode {
        RTP => RTN,
        RTN => RTP,
        m => m,
    }
}

/// A decoded value. `Nan.sig` is the raw stored significand field.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Nan { neg: bool, sig: u128 },
    Inf(bool),
    Zero(bool),
    /// (-1)^neg * m * 2^e, m != 0
    Fin { neg: bool, m: Big, e: i64 },
}

/// What an event exercised (for coverage evidence). Computed by the model only.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cls {
    Exact = 0,
    RoundDown,
    RoundUp,
    Tie,
    Carry,
    SubExact,
    SubInexact,
    SubToNormal,
    ToZero,
    OvfInf,
    OvfMax,
    ZeroExact,
    Inf,
    NanProp,
    Invalid,
    Special,
}
pub const CLS_NAMES: [&str; 16] = [
    "exact", "inexact-down", "inexact-up", "tie", "carry-to-next-binade", "subnormal-exact", "subnormal-inexact",
    "subnormal-rounded-to-normal", "underflow-to-zero", "overflow-to-inf", "overflow-to-largest", "zero-exact", "infinity",
    "nan-propagated", "invalid-or-divzero", "special",
];

impl V {
    pub fn neg(&self) -> bool {
        match *self {
            V::Nan { neg, .. } | V::Fin { neg, .. } => neg,
            V::Inf(n) | V::Zero(n) => n,
        }
    }
    pub fn negated(&self) -> V {
        match self.clone() {
            V::Nan { neg, sig } => V::Nan { neg: !neg, sig },
            V::Inf(n) => V::Inf(!n),
            V::Zero(n) => V::Zero(!n),
            V::Fin { neg, m, e } => V::Fin { neg: !neg, m, e },
        }
    }
    pub fn is_nan(&self) -> bool {
        matches!(self, V::Nan { .. })
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, V::Zero(_))
    }
    pub fn is_inf(&self) -> bool {
        matches!(self, V::Inf(_))
    }
    pub fn is_fin(&self) -> bool {
        matches!(self, V::Fin { .. })
    }
    pub fn is_finite(&self) -> bool {
        matches!(self, V::Fin { .. } | V::Zero(_))
    }
    /// floor(log2|x|) of a finite non-zero value.
    pub fn ilogb(&self) -> i64 {
        match self {
            V::Fin { m, e, .. } => m.bits() - 1 + e,
            _ => panic!("oracle: ilogb"),
        }
    }
}

pub fn decode(f: &Fmt, bits: u128) -> V {
    let neg = bits & f.sign_bit() != 0;
    let ex = (bits >> f.fw()) & f.exp_mask();
    let sig = bits & f.sig_mask();
    if f.x87 {
        let int = sig >> 63 != 0;
        if ex == 0 && sig == 0 {
            return V::Zero(neg);
        }
        if ex == f.exp_mask() {
            return if sig == 1 << 63 { V::Inf(neg) } else { V::Nan { neg, sig } };
        }
        if ex != 0 && !int {
            return V::Nan { neg, sig }; // unnormal
        }
        let e = if ex == 0 { f.emin } else { ex as i64 - f.bias() };
        return V::Fin { neg, m: Big::from_u128(sig), e: e - 63 };
    }
    if ex == f.exp_mask() {
        if f.nanonly {
            if sig == f.sig_mask() {
                return V::Nan { neg, sig };
            }
        } else {
            return if sig == 0 { V::Inf(neg) } else { V::Nan { neg, sig } };
        }
    }
    if ex == 0 {
        return if sig == 0 { V::Zero(neg) } else { V::Fin { neg, m: Big::from_u128(sig), e: f.qmin() } };
    }
    V::Fin { neg, m: Big::from_u128(sig | 1 << f.fw()), e: ex as i64 - f.bias() - (f.p - 1) }
}

pub fn default_nan_sig(f: &Fmt) -> u128 {
    if f.x87 {
        0b11 << 62
    } else if f.nanonly {
        f.sig_mask()
    } else {
        f.quiet_bit()
    }
}
pub fn default_nan(f: &Fmt, neg: bool) -> V {
    V::Nan { neg, sig: default_nan_sig(f) }
}
/// Infinity, or its replacement in formats without infinities.
pub fn infinity(f: &Fmt, neg: bool) -> V {
    if f.nanonly {
        default_nan(f, neg)
    } else {
        V::Inf(neg)
    }
}
pub fn is_signaling(f: &Fmt, v: &V) -> bool {
    match v {
        V::Nan { sig, .. } => {
            if f.nanonly {
                false
            } else if f.x87 {
                sig >> 62 != 0b11
            } else {
                sig & f.quiet_bit() == 0
            }
        }
        _ => false,
    }
}
pub fn quieted(f: &Fmt, v: &V) -> V {
    match *v {
        V::Nan { neg, sig } if !f.nanonly => V::Nan { neg, sig: sig | f.quiet_bit() },
        _ => v.clone(),
    }
}

/// Encode a value that is exactly representable (otherwise the oracle is broken).
pub fn encode(f: &Fmt, v: &V) -> u128 {
    let s = |neg: bool| if neg { f.sign_bit() } else { 0 };
    match v {
        V::Nan { neg, sig } => s(*neg) | f.exp_mask() << f.fw() | sig,
        V::Inf(neg) => {
            assert!(!f.nanonly);
            s(*neg) | f.exp_mask() << f.fw() | if f.x87 { 1 << 63 } else { 0 }
        }
        V::Zero(neg) => s(*neg),
        V::Fin { neg, m, e } => {
            let top = m.bits() - 1 + e;
            let q = (top - (f.p - 1)).max(f.qmin());
            let t = m.shift_exact(e - q).to_u128();
            assert!(t < 1 << f.p && top <= f.emax, "oracle: encode out of range");
            let sub = t >> (f.p - 1) == 0;
            let ex = if sub { 0 } else { (q + f.p - 1 + f.bias()) as u128 };
            s(*neg) | ex << f.fw() | t & f.sig_mask()
        }
    }
}

/// Whether the exact value m*2^e (plus a sticky epsilon) would be rounded away, etc.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rem {
    Zero,
    Less,
    Half,
    More,
}

/// floor(m*2^e / 2^q) and the remainder class.
pub fn split(m: &Big, e: i64, sticky: bool, q: i64) -> (Big, Rem) {
    let n = q - e;
    if n <= 0 {
        assert!(!sticky, "oracle: not enough bits before the sticky bit");
        return (m.shl(-n), Rem::Zero);
    }
    let t = m.shr(n);
    let half = m.bit(n - 1);
    let rest = sticky || m.low_nonzero(n - 1);
    let r = match (half, rest) {
        (false, false) => Rem::Zero,
        (false, true) => Rem::Less,
        (true, false) => Rem::Half,
        (true, true) => Rem::More,
    };
    (t, r)
}

pub fn rounds_away(mode: u8, neg: bool, odd: bool, r: Rem) -> bool {
    if r == Rem::Zero {
        return false;
    }
    match mode {
        RNE => r == Rem::More || r == Rem::Half && odd,
        RNA => r == Rem::More || r == Rem::Half,
        RTZ => false,
        RTP => !neg,
        RTN => neg,
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub v: V,
    pub st: u8,
    pub cls: Cls,
}

impl Out {
    pub fn new(v: V, st: u8, cls: Cls) -> Out {
        Out { v, st, cls }
    }
}

/// Round the non-zero real (-1)^neg * (m + sticky*epsilon) * 2^e to the format.
pub fn round_real(f: &Fmt, neg: bool, m: &Big, e: i64, sticky: bool, mode: u8) -> Out {
    assert!(!m.is_zero() || sticky);
    let top = if m.is_zero() { e - 1 } else { m.bits() - 1 + e };
    let q = (top - (f.p - 1)).max(f.qmin());
    let overflow = || -> Out {
        let to_inf = match mode {
            RNE | RNA => true,
            RTZ => false,
            RTP => !neg,
            _ => neg,
        };
        if to_inf {
            Out::new(infinity(f, neg), OVERFLOW | INEXACT, Cls::OvfInf)
        } else {
            let v = V::Fin { neg, m: Big::from_u128(f.max_sig()), e: f.emax - (f.p - 1) };
            Out::new(v, INEXACT, Cls::OvfMax)
        }
    };
    if top > f.emax {
        return overflow();
    }
    let (t, r) = split(m, e, sticky, q);
    let mut t = t.to_u128();
    let mut q = q;
    let away = rounds_away(mode, neg, t & 1 != 0, r);
    let was_sub = t >> (f.p - 1) == 0;
    let mut carry = false;
    if away {
        t += 1;
        if t == 1 << f.p {
            t >>= 1;
            q += 1;
            carry = true;
        }
    }
    if q + f.p - 1 > f.emax || q + f.p - 1 == f.emax && t > f.max_sig() {
        return overflow();
    }
    let sub = t >> (f.p - 1) == 0;
    let v = if t == 0 { V::Zero(neg) } else { V::Fin { neg, m: Big::from_u128(t), e: q } };
    if r == Rem::Zero {
        return Out::new(v, OK, if sub { Cls::SubExact } else { Cls::Exact });
    }
    if sub {
        return Out::new(v, UNDERFLOW | INEXACT, if t == 0 { Cls::ToZero } else { Cls::SubInexact });
    }
    let cls = if was_sub {
        Cls::SubToNormal
    } else if carry {
        Cls::Carry
    } else if r == Rem::Half {
        Cls::Tie
    } else if away {
        Cls::RoundUp
    } else {
        Cls::RoundDown
    };
    Out::new(v, INEXACT, cls)
}

/// The exact outcome of an operation, before a rounding mode is chosen.
#[derive(Clone, Debug)]
pub enum Ex {
    Fixed(Out),
    /// An exact zero sum of non-zero (or unlike-signed zero) terms.
    SumZero,
    Real { neg: bool, m: Big, e: i64, sticky: bool },
}

pub fn finish(f: &Fmt, x: &Ex, mode: u8) -> Out {
    match x {
        Ex::Fixed(o) => o.clone(),
        Ex::SumZero => Out::new(V::Zero(mode == RTN), OK, Cls::ZeroExact),
        Ex::Real { neg, m, e, sticky } => round_real(f, *neg, m, *e, *sticky, mode),
    }
}

fn fixed(v: V, st: u8, cls: Cls) -> Ex {
    Ex::Fixed(Out::new(v, st, cls))
}
fn same(v: &V) -> Ex {
    let cls = match v {
        V::Inf(_) => Cls::Inf,
        V::Zero(_) => Cls::ZeroExact,
        _ => Cls::Special,
    };
    fixed(v.clone(), OK, cls)
}

/// NaN operand handling shared by all operations: first NaN, quieted; INVALID iff any operand signals.
pub fn nan_result(f: &Fmt, ops: &[&V]) -> Option<Out> {
    let first = ops.iter().find(|v| v.is_nan())?;
    let st = if ops.iter().any(|v| is_signaling(f, v)) { INVALID } else { OK };
    let v = if is_signaling(f, first) { quieted(f, first) } else { (*first).clone() };
    Some(Out::new(v, st, Cls::NanProp))
}

/// Exact sum of two non-zero reals.
fn sum_real(p: i64, an: bool, am: &Big, ae: i64, bn: bool, bm: &Big, be: i64) -> Ex {
    let (atop, btop) = (am.bits() + ae, bm.bits() + be);
    // Order so that the first one is not smaller in top exponent.
    let (an, am, ae, bn, bm, be) = if atop >= btop { (an, am, ae, bn, bm, be) } else { (bn, bm, be, an, am, ae) };
    let btop = bm.bits() + be;
    let k = 2 * p + 6;
    if btop < ae - k {
        // |b| < 2^(ae-k): it only matters as a sticky bit.
        let m = am.shl(k);
        return if an == bn {
            Ex::Real { neg: an, m, e: ae - k, sticky: true }
        } else {
            Ex::Real { neg: an, m: m.sub(&Big::one()), e: ae - k, sticky: true }
        };
    }
    let e = ae.min(be);
    let (x, y) = (am.shl(ae - e), bm.shl(be - e));
    if an == bn {
        return Ex::Real { neg: an, m: x.add(&y), e, sticky: false };
    }
    match x.cmp(&y) {
        Ordering::Equal => Ex::SumZero,
        Ordering::Greater => Ex::Real { neg: an, m: x.sub(&y), e, sticky: false },
        Ordering::Less => Ex::Real { neg: bn, m: y.sub(&x), e, sticky: false },
    }
}

/// a + b, where b has already been negated for subtraction (NaNs are handled by the caller).
fn add_nonnan(f: &Fmt, a: &V, b: &V) -> Ex {
    match (a, b) {
        (V::Inf(x), V::Inf(y)) => {
            if x == y {
                same(a)
            } else {
                fixed(default_nan(f, false), INVALID, Cls::Invalid)
            }
        }
        (V::Inf(_), _) => same(a),
        (_, V::Inf(_)) => same(b),
        (V::Zero(x), V::Zero(y)) => {
            if x == y {
                same(a)
            } else {
                Ex::SumZero
            }
        }
        (V::Zero(_), _) => same(b),
        (_, V::Zero(_)) => same(a),
        (V::Fin { neg: an, m: am, e: ae }, V::Fin { neg: bn, m: bm, e: be }) => sum_real(f.p, *an, am, *ae, *bn, bm, *be),
        _ => unreachable!(),
    }
}

pub fn add(f: &Fmt, a: &V, b: &V) -> Ex {
    match nan_result(f, &[a, b]) {
        Some(o) => Ex::Fixed(o),
        None => add_nonnan(f, a, b),
    }
}
pub fn sub(f: &Fmt, a: &V, b: &V) -> Ex {
    match nan_result(f, &[a, b]) {
        Some(o) => Ex::Fixed(o),
        None => add_nonnan(f, a, &b.negated()),
    }
}
pub fn mul(f: &Fmt, a: &V, b: &V) -> Ex {
    if let Some(o) = nan_result(f, &[a, b]) {
        return Ex::Fixed(o);
    }
    let neg = a.neg() != b.neg();
    match (a, b) {
        (V::Inf(_), V::Zero(_)) | (V::Zero(_), V::Inf(_)) => fixed(default_nan(f, false), INVALID, Cls::Invalid),
        (V::Inf(_), _) | (_, V::Inf(_)) => fixed(V::Inf(neg), OK, Cls::Inf),
        (V::Zero(_), _) | (_, V::Zero(_)) => fixed(V::Zero(neg), OK, Cls::ZeroExact),
        (V::Fin { m: am, e: ae, .. }, V::Fin { m: bm, e: be, .. }) => {
            Ex::Real { neg, m: am.mul(bm), e: ae + be, sticky: false }
        }
        _ => unreachable!(),
    }
}
pub fn div(f: &Fmt, a: &V, b: &V) -> Ex {
    if let Some(o) = nan_result(f, &[a, b]) {
        return Ex::Fixed(o);
    }
    let neg = a.neg() != b.neg();
    match (a, b) {
        (V::Inf(_), V::Inf(_)) | (V::Zero(_), V::Zero(_)) => fixed(default_nan(f, false), INVALID, Cls::Invalid),
        (V::Inf(_), _) => fixed(V::Inf(neg), OK, Cls::Inf),
        (V::Zero(_), _) => fixed(V::Zero(neg), OK, Cls::ZeroExact),
        (_, V::Inf(_)) => fixed(V::Zero(neg), OK, Cls::ZeroExact),
        (_, V::Zero(_)) => fixed(infinity(f, neg), DIVZERO, Cls::Invalid),
        (V::Fin { m: am, e: ae, .. }, V::Fin { m: bm, e: be, .. }) => {
            let k = (f.p + 4 + bm.bits() - am.bits()).max(0);
            let (q, r) = am.shl(k).divrem(bm);
            Ex::Real { neg, m: q, e: ae - be - k, sticky: !r.is_zero() }
        }
        _ => unreachable!(),
    }
}
/// a*b + c
pub fn fma(f: &Fmt, a: &V, b: &V, c: &V) -> Ex {
    if a.is_nan() || b.is_nan() {
        return Ex::Fixed(match nan_result(f, &[a, b]) {
            // A signaling multiplicand ends the operation; a quiet one goes on to the addition.
            Some(o) if o.st == OK => {
                let st = if is_signaling(f, c) { INVALID } else { OK };
                Out::new(o.v, st, Cls::NanProp)
            }
            Some(o) => o,
            None => unreachable!(),
        });
    }
    let neg = a.neg() != b.neg();
    let prod = match (a, b) {
        (V::Inf(_), V::Zero(_)) | (V::Zero(_), V::Inf(_)) => {
            return fixed(default_nan(f, false), INVALID, Cls::Invalid);
        }
        (V::Inf(_), _) | (_, V::Inf(_)) => V::Inf(neg),
        (V::Zero(_), _) | (_, V::Zero(_)) => V::Zero(neg),
        (V::Fin { m: am, e: ae, .. }, V::Fin { m: bm, e: be, .. }) => V::Fin { neg, m: am.mul(bm), e: ae + be },
        _ => unreachable!(),
    };
    if let Some(o) = nan_result(f, &[c]) {
        return Ex::Fixed(o);
    }
    match (&prod, c) {
        (V::Fin { neg, m, e }, V::Zero(_)) => Ex::Real { neg: *neg, m: m.clone(), e: *e, sticky: false },
        _ => add_nonnan(f, &prod, c),
    }
}

/// Returns (result, quotient parity) of the truncated remainder on magnitudes, both finite non-zero.
fn rem_core(am: &Big, ae: i64, bm: &Big, be: i64) -> (Big, i64, bool) {
    let e = ae.min(be);
    // |a| < |b| and far apart: avoid a huge shift.
    if am.bits() + ae < bm.bits() + be - 1 && be > ae {
        return (am.shl(0), ae, false);
    }
    let (x, y) = (am.shl(ae - e), bm.shl(be - e));
    let (q, r) = x.divrem(&y);
    (r, e, q.is_odd())
}
pub fn fmod(f: &Fmt, a: &V, b: &V) -> Ex {
    if let Some(o) = nan_result(f, &[a, b]) {
        return Ex::Fixed(o);
    }
    match (a, b) {
        (V::Inf(_), _) | (_, V::Zero(_)) => fixed(default_nan(f, false), INVALID, Cls::Invalid),
        (V::Zero(_), _) | (_, V::Inf(_)) => same(a),
        (V::Fin { neg, m: am, e: ae }, V::Fin { m: bm, e: be, .. }) => {
            let (r, e, _) = rem_core(am, *ae, bm, *be);
            if r.is_zero() {
                fixed(V::Zero(*neg), OK, Cls::ZeroExact)
            } else {
                Ex::Real { neg: *neg, m: r, e, sticky: false }
            }
        }
        _ => unreachable!(),
    }
}
pub fn ieee_rem(f: &Fmt, a: &V, b: &V) -> Ex {
    if let Some(o) = nan_result(f, &[a, b]) {
        return Ex::Fixed(o);
    }
    match (a, b) {
        (V::Inf(_), _) | (_, V::Zero(_)) => fixed(default_nan(f, false), INVALID, Cls::Invalid),
        (V::Zero(_), _) | (_, V::Inf(_)) => same(a),
        (V::Fin { neg, m: am, e: ae }, V::Fin { m: bm, e: be, .. }) => {
            // |a| well below |b|/2: a itself.
            if am.bits() + ae < bm.bits() + be - 2 {
                return Ex::Real { neg: *neg, m: am.clone(), e: *ae, sticky: false };
            }
            let (r, e, odd) = rem_core(am, *ae, bm, *be);
            if r.is_zero() {
                return fixed(V::Zero(*neg), OK, Cls::ZeroExact);
            }
            // y = |b| at scale e or finer
            let e2 = e.min(*be);
            let (r, y) = (r.shl(e - e2), bm.shl(be - e2));
            let up = match r.shl(1).cmp(&y) {
                Ordering::Less => false,
                Ordering::Equal => odd,
                Ordering::Greater => true,
            };
            if up {
                Ex::Real { neg: !*neg, m: y.sub(&r), e: e2, sticky: false }
            } else {
                Ex::Real { neg: *neg, m: r, e: e2, sticky: false }
            }
        }
        _ => unreachable!(),
    }
}

/// Rounded integer magnitude and whether anything was lost.
pub fn int_round(neg: bool, m: &Big, e: i64, mode: u8) -> (Big, Rem) {
    // Far below 1/2: avoid giant shifts (they would be right, only slow).
    let (t, r) = split(m, e, false, 0);
    let away = rounds_away(mode, neg, t.is_odd(), r);
    (if away { t.add(&Big::one()) } else { t }, r)
}

pub fn round_to_integral(f: &Fmt, a: &V, mode: u8) -> Out {
    match a {
        V::Nan { .. } => nan_result(f, &[a]).unwrap(),
        V::Inf(_) => Out::new(a.clone(), OK, Cls::Inf),
        V::Zero(_) => Out::new(a.clone(), OK, Cls::ZeroExact),
        V::Fin { neg, m, e } => {
            let (t, r) = int_round(*neg, m, *e, mode);
            let st = if r == Rem::Zero { OK } else { INEXACT };
            let cls = match r {
                Rem::Zero => Cls::Exact,
                Rem::Half => Cls::Tie,
                _ => {
                    if t.is_zero() {
                        Cls::ToZero
                    } else if rounds_away(mode, *neg, false, r) {
                        Cls::RoundUp
                    } else {
                        Cls::RoundDown
                    }
                }
            };
            if t.is_zero() {
                Out::new(V::Zero(*neg), st, cls)
            } else {
                Out::new(V::Fin { neg: *neg, m: t, e: 0 }, st, cls)
            }
        }
    }
}

pub fn is_integer(a: &V) -> bool {
    match a {
        V::Zero(_) => true,
        V::Fin { m, e, .. } => *e >= 0 || !m.low_nonzero(-*e),
        _ => false,
    }
}

/// (significand, last-place exponent) with the significand as wide as the format allows.
pub fn canon(f: &Fmt, m: &Big, e: i64) -> (u128, i64) {
    let top = m.bits() - 1 + e;
    let q = (top - (f.p - 1)).max(f.qmin());
    (m.shift_exact(e - q).to_u128(), q)
}

pub fn next_up(f: &Fmt, a: &V) -> Out {
    let one = |neg| V::Fin { neg, m: Big::one(), e: f.qmin() };
    match a {
        V::Nan { neg, .. } => {
            if is_signaling(f, a) {
                Out::new(default_nan(f, *neg), INVALID, Cls::NanProp)
            } else {
                Out::new(a.clone(), OK, Cls::NanProp)
            }
        }
        V::Inf(true) => Out::new(V::Fin { neg: true, m: Big::from_u128(f.max_sig()), e: f.emax - (f.p - 1) }, OK, Cls::Inf),
        V::Inf(false) => Out::new(a.clone(), OK, Cls::Inf),
        V::Zero(_) => Out::new(one(false), OK, Cls::ZeroExact),
        V::Fin { neg, m, e } => {
            let (t, q) = canon(f, m, *e);
            if !*neg {
                let (t2, q2, carry) = if t + 1 == 1 << f.p { (1 << (f.p - 1), q + 1, true) } else { (t + 1, q, false) };
                if q2 + f.p - 1 > f.emax || q2 + f.p - 1 == f.emax && t2 > f.max_sig() {
                    return Out::new(infinity(f, false), OK, Cls::OvfInf);
                }
                let cls = if carry {
                    Cls::Carry
                } else if t >> (f.p - 1) == 0 {
                    if t2 >> (f.p - 1) == 0 {
                        Cls::SubExact
                    } else {
                        Cls::SubToNormal
                    }
                } else {
                    Cls::RoundUp
                };
                Out::new(V::Fin { neg: false, m: Big::from_u128(t2), e: q2 }, OK, cls)
            } else {
                let (t2, q2, carry) =
                    if t == 1 << (f.p - 1) && q > f.qmin() { ((1 << f.p) - 1, q - 1, true) } else { (t - 1, q, false) };
                if t2 == 0 {
                    return Out::new(V::Zero(true), OK, Cls::ToZero);
                }
                let cls = if carry {
                    Cls::Carry
                } else if t2 >> (f.p - 1) == 0 {
                    Cls::SubExact
                } else {
                    Cls::RoundDown
                };
                Out::new(V::Fin { neg: true, m: Big::from_u128(t2), e: q2 }, OK, cls)
            }
        }
    }
}
pub fn next_down(f: &Fmt, a: &V) -> Out {
    let o = next_up(f, &a.negated());
    Out::new(o.v.negated(), o.st, o.cls)
}

/// Conversion between formats; returns the outcome and the information-loss flag.
pub fn convert(f: &Fmt, t: &Fmt, a: &V, mode: u8) -> (Out, bool) {
    match a {
        V::Nan { neg, sig } => {
            let st = if is_signaling(f, a) { INVALID } else { OK };
            if t.nanonly {
                return (Out::new(default_nan(t, *neg), st, Cls::NanProp), !f.nanonly);
            }
            // Payload: quieted source significand (an x87 integer bit rides above the payload), left-aligned.
            let src = match quieted(f, a) {
                V::Nan { sig, .. } => sig,
                _ => unreachable!(),
            };
            let shift = t.p - f.p;
            let (pay, lost) = if shift >= 0 {
                (src << shift, false)
            } else if f.nanonly {
                // The single NaN of the format carries no payload; low bits are not information.
                (src, false)
            } else {
                (src >> -shift, src & ((1u128 << -shift) - 1) != 0)
            };
            let pay_mask = (1u128 << (t.p - 1)) - 1;
            let nsig = pay & pay_mask | default_nan_sig(t);
            let odd_x87 = f.x87 && !t.x87 && sig >> 62 != 0b11;
            (Out::new(V::Nan { neg: *neg, sig: nsig }, st, Cls::NanProp), lost || odd_x87)
        }
        V::Inf(n) => {
            if t.nanonly {
                (Out::new(default_nan(t, *n), INEXACT, Cls::Inf), true)
            } else {
                (Out::new(V::Inf(*n), OK, Cls::Inf), false)
            }
        }
        V::Zero(n) => (Out::new(V::Zero(*n), OK, Cls::ZeroExact), false),
        V::Fin { neg, m, e } => {
            let o = round_real(t, *neg, m, *e, false, mode);
            let l = o.st != OK;
            (o, l)
        }
    }
}

/// Conversion to an integer of `width` bits: (two's complement value, status, is_exact, class).
pub fn to_int(a: &V, width: u32, signed: bool, mode: u8) -> (u128, u8, bool, Cls) {
    let max = if signed {
        if width == 1 {
            0
        } else {
            (1u128 << (width - 1)) - 1
        }
    } else if width == 128 {
        !0
    } else {
        (1u128 << width) - 1
    };
    let min_mag: u128 = if signed { 1u128 << (width - 1) } else { 0 };
    let wrap = |neg: bool, mag: u128| if neg { mag.wrapping_neg() } else { mag };
    let sat = |neg: bool| (if neg { wrap(true, min_mag) } else { max }, INVALID, false);
    match a {
        V::Nan { .. } => (0, INVALID, false, Cls::NanProp),
        V::Inf(n) => {
            let (v, s, x) = sat(*n);
            (v, s, x, Cls::Inf)
        }
        V::Zero(n) => (0, OK, !*n, Cls::ZeroExact),
        V::Fin { neg, m, e } => {
            let (t, r) = if m.bits() + e > 200 { (Big::pow2(200), Rem::Zero) } else { int_round(*neg, m, *e, mode) };
            let bound = Big::from_u128(if *neg { min_mag } else { max });
            if t.cmp(&bound) == Ordering::Greater {
                let (v, s, x) = sat(*neg);
                let near = m.bits() + e <= width as i64 + 1;
                return (v, s, x, if near { Cls::OvfMax } else { Cls::OvfInf });
            }
            let cls = match r {
                Rem::Zero => Cls::Exact,
                Rem::Half => Cls::Tie,
                _ => {
                    if t.is_zero() {
                        Cls::ToZero
                    } else if rounds_away(mode, *neg, false, r) {
                        Cls::RoundUp
                    } else {
                        Cls::RoundDown
                    }
                }
            };
            (wrap(*neg, t.to_u128()), if r == Rem::Zero { OK } else { INEXACT }, r == Rem::Zero, cls)
        }
    }
}

pub fn from_int(f: &Fmt, neg: bool, mag: u128, mode: u8) -> Out {
    if mag == 0 {
        return Out::new(V::Zero(false), OK, Cls::ZeroExact);
    }
    round_real(f, neg, &Big::from_u128(mag), 0, false, mode)
}

pub fn scalbn(f: &Fmt, a: &V, n: i64, mode: u8) -> Out {
    match a {
        V::Nan { .. } => nan_result(f, &[a]).unwrap(),
        V::Inf(_) => Out::new(a.clone(), OK, Cls::Inf),
        V::Zero(_) => Out::new(a.clone(), OK, Cls::ZeroExact),
        V::Fin { neg, m, e } => round_real(f, *neg, m, e + n, false, mode),
    }
}

pub fn exact_inverse(f: &Fmt, a: &V) -> Option<V> {
    match a {
        V::Fin { neg, m, e } => {
            let k = a.ilogb();
            let pow2 = m.trailing_zeros() == m.bits() - 1;
            // Input and reciprocal must both be normal numbers.
            if !pow2 || k < f.emin || -k < f.emin || -k > f.emax {
                return None;
            }
            let _ = e;
            Some(V::Fin { neg: *neg, m: Big::one(), e: -k })
        }
        _ => None,
    }
}

/// Numeric order; None if unordered.
pub fn cmp(a: &V, b: &V) -> Option<Ordering> {
    let sgn = |v: &V| if v.is_zero() { 0 } else if v.neg() { -1 } else { 1 };
    if a.is_nan() || b.is_nan() {
        return None;
    }
    let (sa, sb) = (sgn(a), sgn(b));
    if sa != sb {
        return Some(sa.cmp(&sb));
    }
    if sa == 0 {
        return Some(Ordering::Equal);
    }
    let o = cmp_mag(a, b);
    Some(if sa < 0 { o.reverse() } else { o })
}
/// Order of magnitudes of non-NaN values.
pub fn cmp_mag(a: &V, b: &V) -> Ordering {
    let rank = |v: &V| match v {
        V::Zero(_) => 0,
        V::Fin { .. } => 1,
        _ => 2,
    };
    match (a, b) {
        (V::Fin { m: am, e: ae, .. }, V::Fin { m: bm, e: be, .. }) => (am.bits() + ae).cmp(&(bm.bits() + be)).then_with(|| {
            let e = (*ae).min(*be);
            am.shl(ae - e).cmp(&bm.shl(be - e))
        }),
        _ => rank(a).cmp(&rank(b)),
    }
}

/// Class names for queries.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Zero,
    Sub,
    Normal,
    Inf,
    Qnan,
    Snan,
}
pub fn class(f: &Fmt, v: &V) -> Class {
    match v {
        V::Zero(_) => Class::Zero,
        V::Inf(_) => Class::Inf,
        V::Nan { .. } => {
            if is_signaling(f, v) {
                Class::Snan
            } else {
                Class::Qnan
            }
        }
        V::Fin { .. } => {
            if v.ilogb() < f.emin {
                Class::Sub
            } else {
                Class::Normal
            }
        }
    }
}

/// An exact decimal number (-1)^neg * digits * 10^exp rounded to the format; digits are ASCII.
pub fn from_decimal(f: &Fmt, neg: bool, digits: &[u8], exp: i64, mode: u8) -> Out {
    let x = exact_decimal(f, neg, digits, exp);
    finish(f, &x, mode)
}
pub fn exact_decimal(f: &Fmt, neg: bool, digits: &[u8], exp: i64) -> Ex {
    let first = digits.iter().position(|&d| d != b'0');
    let Some(first) = first else {
        return Ex::Fixed(Out::new(V::Zero(neg), OK, Cls::ZeroExact));
    };
    let last = digits.iter().rposition(|&d| d != b'0').unwrap();
    let exp = exp + (digits.len() - 1 - last) as i64;
    let d = &digits[first..=last];
    // Decimal exponent of the leading digit.
    let lead = exp + d.len() as i64 - 1;
    // 10^lead <= |x| < 10^(lead+1); far outside the format's range any value behaves the same.
    if lead > f.emax + 10 {
        return Ex::Real { neg, m: Big::one(), e: f.emax + 100, sticky: false };
    }
    if lead < (f.qmin() - 100) / 3 - 10 {
        return Ex::Real { neg, m: Big::one(), e: f.qmin() - 1000, sticky: true };
    }
    let m = Big::from_dec(d);
    if exp >= 0 {
        Ex::Real { neg, m: m.mul(&pow5(exp as u64)), e: exp, sticky: false }
    } else {
        let den = pow5((-exp) as u64);
        let k = (f.p + 4 + den.bits() - m.bits()).max(0);
        let (q, r) = m.shl(k).divrem(&den);
        Ex::Real { neg, m: q, e: exp - k, sticky: !r.is_zero() }
    }
}

pub fn pow5(n: u64) -> Big {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static CACHE: RefCell<HashMap<u64, Big>> = RefCell::new(HashMap::new()));
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(b) = c.get(&n) {
            return b.clone();
        }
        let b = Big::pow(5, n);
        if c.len() < 4096 {
            c.insert(n, b.clone());
        }
        b
    })
}

/// The exact decimal expansion of a finite non-zero value: (digits without trailing zeros, exponent of last digit).
pub fn to_decimal(m: &Big, e: i64) -> (Vec<u8>, i64) {
    let tz = m.trailing_zeros();
    let (m, e) = (m.shr(tz), e + tz);
    let (mut d, mut x) = if e >= 0 { (m.shl(e).to_dec(), 0) } else { (m.mul(&pow5((-e) as u64)).to_dec(), e) };
    while d.len() > 1 && d.last() == Some(&b'0') {
        d.pop();
        x += 1;
    }
    (d, x)
}

/// The documented text layout.
pub fn display(f: &Fmt, v: &V, precision: Option<usize>, width: Option<usize>, alternate: bool) -> String {
    let width = width.unwrap_or(3);
    let natural = 2 + f.p as usize * 59 / 196;
    let prec = match precision {
        None | Some(0) => natural,
        Some(n) => n,
    };
    let mut s = String::new();
    match v {
        V::Nan { .. } => return "NaN".into(),
        V::Inf(n) => return if *n { "-Inf".into() } else { "+Inf".into() },
        V::Zero(n) => {
            if *n {
                s.push('-');
            }
            if width != 0 {
                s.push('0');
            } else if alternate {
                s.push_str("0.0");
                if let Some(p) = precision {
                    for _ in 1..p.max(1) {
                        s.push('0');
                    }
                }
                s.push_str("e+00");
            } else {
                s.push_str("0.0E+0");
            }
            return s;
        }
        V::Fin { neg, m, e } => {
            if *neg {
                s.push('-');
            }
            let (mut d, mut x) = to_decimal(m, *e);
            if d.len() > prec {
                let up = d[prec] >= b'5';
                x += (d.len() - prec) as i64;
                d.truncate(prec);
                if up {
                    let mut i = prec;
                    loop {
                        if i == 0 {
                            // 999.. -> 1000..
                            d.insert(0, b'1');
                            break;
                        }
                        i -= 1;
                        if d[i] == b'9' {
                            d[i] = b'0';
                        } else {
                            d[i] += 1;
                            break;
                        }
                    }
                }
                while d.len() > 1 && d.last() == Some(&b'0') {
                    d.pop();
                    x += 1;
                }
            }
            let n = d.len();
            let msd = x + n as i64 - 1;
            let sci = if width == 0 {
                true
            } else if x >= 0 {
                x as u64 > width as u64 || n as u64 + x as u64 > prec as u64
            } else {
                msd < 0 && (-msd) as u64 > width as u64
            };
            let txt = |d: &[u8]| String::from_utf8(d.to_vec()).unwrap();
            if sci {
                s.push(d[0] as char);
                s.push('.');
                if n == 1 && !alternate {
                    s.push('0');
                }
                s.push_str(&txt(&d[1..]));
                if alternate {
                    // Fill to `precision` digits after the point.
                    for _ in n - 1..prec {
                        s.push('0');
                    }
                    s.push('e');
                    s.push(if msd < 0 { '-' } else { '+' });
                    s.push_str(&format!("{:02}", msd.abs()));
                } else {
                    s.push('E');
                    s.push(if msd < 0 { '-' } else { '+' });
                    s.push_str(&msd.abs().to_string());
                }
            } else if x >= 0 {
                s.push_str(&txt(&d));
                for _ in 0..x {
                    s.push('0');
                }
            } else if msd >= 0 {
                let k = (msd + 1) as usize;
                s.push_str(&txt(&d[..k]));
                s.push('.');
                s.push_str(&txt(&d[k..]));
            } else {
                s.push_str("0.");
                for _ in 0..(-msd - 1) {
                    s.push('0');
                }
                s.push_str(&txt(&d));
            }
        }
    }
    s
}

/// What the NaN factories must produce (always positive).
pub fn make_nan(f: &Fmt, signaling: bool, payload: Option<u128>) -> V {
    if f.nanonly {
        return default_nan(f, false);
    }
    let mask = (1u128 << (f.p - 1)) - 1;
    let int = if f.x87 { 1u128 << 63 } else { 0 };
    let pay = payload.unwrap_or(0) & mask;
    let sig = if signaling {
        let p = pay & !f.quiet_bit();
        // A signaling NaN with an empty payload takes the next bit down instead of becoming an infinity.
        if p == 0 {
            f.quiet_bit() >> 1
        } else {
            p
        }
    } else {
        pay | f.quiet_bit()
    };
    V::Nan { neg: false, sig: sig | int }
}

/// The coverage class of a plain operand.
pub fn vcls(f: &Fmt, v: &V) -> Cls {
    match v {
        V::Nan { .. } => {
            if is_signaling(f, v) {
                Cls::Invalid
            } else {
                Cls::NanProp
            }
        }
        V::Inf(_) => Cls::Inf,
        V::Zero(_) => Cls::ZeroExact,
        V::Fin { .. } => {
            if v.ilogb() < f.emin {
                Cls::SubExact
            } else {
                Cls::Exact
            }
        }
    }
}
