//! Operand generators. They aim at rounding boundaries, cancellation, exponent
//! extremes and special encodings; they know formats only through `model::Fmt`.

use crate::big::Big;
use crate::model::*;
use crate::rng::Rng;

fn low(n: i64) -> u128 {
    if n <= 0 {
        0
    } else if n >= 128 {
        !0
    } else {
        (1 << n) - 1
    }
}

/// A `bits`-wide integer (top bit not forced) with a structured pattern.
pub fn pattern(r: &mut Rng, bits: i64) -> u128 {
    if bits <= 0 {
        return 0;
    }
    let all = low(bits);
    let v = match r.below(12) {
        0 | 1 | 2 => r.u128(),
        3 => 0,
        4 => all,
        5 => {
            // few bits set
            let mut v = 0;
            for _ in 0..1 + r.below(3) {
                v |= 1 << r.below(bits as u64);
            }
            v
        }
        6 => {
            let mut v = all;
            for _ in 0..1 + r.below(3) {
                v &= !(1 << r.below(bits as u64));
            }
            v
        }
        7 => {
            // a run of ones
            let a = r.below(bits as u64 + 1) as i64;
            let b = r.below(bits as u64 + 1) as i64;
            low(a.max(b)) & !low(a.min(b))
        }
        8 => r.below(16) as u128,
        9 => all - (r.below(16) as u128 & all),
        10 => {
            // random with trailing zeros
            let k = r.below(bits as u64);
            (r.u128() >> k) << k
        }
        _ => {
            let k = r.below(bits as u64) as i64;
            r.u128() & low(bits - k)
        }
    };
    v & all
}

/// Assemble sign, exponent field and significand field.
pub fn pack(f: &Fmt, neg: bool, ex: u128, sig: u128) -> u128 {
    (if neg { f.sign_bit() } else { 0 }) | (ex & f.exp_mask()) << f.fw() | sig & f.sig_mask()
}

/// A finite number with unbiased exponent near `e` (clamped into range) and fraction pattern `frac` (P-1 bits).
pub fn with_exp(f: &Fmt, neg: bool, e: i64, frac: u128) -> u128 {
    let frac = frac & low(f.p - 1);
    if e > f.emax {
        return with_exp(f, neg, f.emax, frac);
    }
    if e < f.emin {
        let sh = f.emin - e;
        let s = if sh >= f.p { 1 } else { (frac | 1 << (f.p - 1)) >> sh };
        return pack(f, neg, 0, s);
    }
    let mut frac = frac;
    if f.nanonly && e == f.emax && frac == low(f.p - 1) {
        frac -= 1;
    }
    let int = if f.x87 { 1u128 << 63 } else { 0 };
    pack(f, neg, (e + f.bias()) as u128, frac | int)
}

/// From a P-bit-or-shorter significand and last-place exponent; saturates into range.
pub fn from_sig(f: &Fmt, neg: bool, m: u128, q: i64) -> u128 {
    if m == 0 {
        return pack(f, neg, 0, 0);
    }
    let nb = 128 - m.leading_zeros() as i64;
    let e = nb - 1 + q;
    // left-align to P bits
    let s = if nb <= f.p { m << (f.p - nb) } else { m >> (nb - f.p) };
    with_exp(f, neg, e, s & low(f.p - 1))
}

pub fn specials(f: &Fmt) -> Vec<u128> {
    let em = f.exp_mask();
    let sm = f.sig_mask();
    let mut v = vec![];
    let mut push = |x: u128| {
        v.push(x);
        v.push(x | f.sign_bit());
    };
    push(0);
    for i in 1..4 {
        push(i); // small subnormals
    }
    let int = if f.x87 { 1u128 << 63 } else { 0 };
    let frac = low(f.p - 1);
    push(frac); // largest subnormal
    push(frac - 1);
    push(1 << (f.p - 2)); // half the smallest normal
    push((1 << (f.p - 2)) + 1);
    push(pack(f, false, 1, int)); // smallest normal
    push(pack(f, false, 1, int | 1));
    push(pack(f, false, 1, int | frac));
    push(pack(f, false, 2, int));
    let top = if f.nanonly { em } else { em - 1 };
    let big = if f.nanonly { frac - 1 } else { frac };
    push(pack(f, false, top, int | big)); // largest
    push(pack(f, false, top, int | (big - 1)));
    push(pack(f, false, top, int | (big - 2)));
    push(pack(f, false, top, int));
    push(pack(f, false, top, int | 1));
    push(pack(f, false, top, int | 1 << (f.p - 2)));
    push(pack(f, false, top - 1, int | frac));
    push(pack(f, false, top - 1, int));
    for e in [-3i64, -2, -1, 0, 1, 2, 3, f.p - 2, f.p - 1, f.p, f.p + 1, -(f.p - 1), -f.p] {
        if e >= f.emin && e <= f.emax {
            push(with_exp(f, false, e, 0));
            push(with_exp(f, false, e, 1));
            push(with_exp(f, false, e, frac));
            push(with_exp(f, false, e, 1 << (f.p - 2)));
        }
    }
    // Infinity and NaNs
    if f.nanonly {
        push(pack(f, false, em, sm));
    } else {
        push(pack(f, false, em, int));
        let q = 1u128 << (f.p - 2);
        push(pack(f, false, em, int | q));
        push(pack(f, false, em, int | q | 1));
        push(pack(f, false, em, int | frac));
        push(pack(f, false, em, int | 1));
        if f.p > 3 {
            push(pack(f, false, em, int | q >> 1));
        }
        push(pack(f, false, em, int | (q - 1)));
    }
    if f.x87 {
        push(pack(f, false, em, 0)); // pseudo-infinity
        push(pack(f, false, em, 1)); // pseudo-NaN
        push(pack(f, false, em, 1 << 62));
        push(pack(f, false, em, low(63)));
        push(pack(f, false, 5, 0)); // unnormal
        push(pack(f, false, em - 1, low(63)));
        push(pack(f, false, 16383, 1 << 62));
        push(pack(f, false, 0, 1 << 63)); // pseudo-denormal
        push(pack(f, false, 0, !0));
    }
    v
}

pub fn is_nan_bits(f: &Fmt, b: u128) -> bool {
    decode(f, b).is_nan()
}

/// An exponent drawn from the interesting places of the range.
pub fn exponent(r: &mut Rng, f: &Fmt) -> i64 {
    let w = f.p + 4;
    match r.below(10) {
        0 | 1 | 2 => r.range(f.qmin() - 1, f.emax),
        3 | 4 => r.range(f.emin - f.p - 1, f.emin + w),
        5 => r.range(f.emax - w.min(12), f.emax),
        6 => r.range(f.emax - w.min(f.emax - f.emin), f.emax),
        7 | 8 => r.range((-w).max(f.emin), w.min(f.emax)),
        _ => r.range(-4, 4).clamp(f.emin, f.emax),
    }
}

/// Finite non-zero.
pub fn finite(r: &mut Rng, f: &Fmt) -> u128 {
    let e = exponent(r, f);
    let neg = r.bool();
    let p = pattern(r, f.p - 1);
    with_exp(f, neg, e, p)
}

/// Finite, with an exponent inside `lo..=hi`.
pub fn finite_in(r: &mut Rng, f: &Fmt, lo: i64, hi: i64) -> u128 {
    let (lo, hi) = (lo.max(f.qmin()), hi.min(f.emax));
    let e = if lo <= hi { r.range(lo, hi) } else { lo.min(f.emax) };
    let neg = r.bool();
    let p = pattern(r, f.p - 1);
    with_exp(f, neg, e, p)
}

/// Any encoding at all, including the strange ones.
pub fn any(r: &mut Rng, f: &Fmt) -> u128 {
    match r.below(16) {
        0 | 1 => r.u128() & f.all_mask(),
        2 | 3 => special(r, f),
        4 => {
            // a special, nudged
            let s = special(r, f);
            let d = r.below(4) as u128;
            (if r.bool() { s.wrapping_add(d) } else { s.wrapping_sub(d) }) & f.all_mask()
        }
        5 => nan(r, f),
        _ => finite(r, f),
    }
}

pub fn special(r: &mut Rng, f: &Fmt) -> u128 {
    use std::cell::RefCell;
    thread_local!(static S: RefCell<Vec<Vec<u128>>> = RefCell::new(vec![vec![]; 32]));
    S.with(|s| {
        let mut s = s.borrow_mut();
        let t = &mut s[f.id as usize];
        if t.is_empty() {
            *t = specials(f);
        }
        *r.pick(t)
    })
}

pub fn nan(r: &mut Rng, f: &Fmt) -> u128 {
    let neg = r.bool();
    if f.nanonly {
        return pack(f, neg, f.exp_mask(), f.sig_mask());
    }
    if f.x87 && r.chance(1, 3) {
        // any x87 NaN-class pattern
        return match r.below(3) {
            0 => pack(f, neg, f.exp_mask(), pattern(r, 63)),
            1 => {
                let e = r.range(1, 0x7ffe) as u128;
                pack(f, neg, e, pattern(r, 63))
            }
            _ => pack(f, neg, f.exp_mask(), pattern(r, 63).max(1) | 1 << 63),
        };
    }
    let mut s = pattern(r, f.p - 1);
    if s == 0 {
        s = 1;
    }
    if f.x87 {
        s |= 1 << 63;
    }
    pack(f, neg, f.exp_mask(), s)
}

pub fn inf(f: &Fmt, neg: bool) -> u128 {
    pack(f, neg, f.exp_mask(), if f.nanonly { f.sig_mask() } else if f.x87 { 1 << 63 } else { 0 })
}

/// Replace one operand by something special now and then.
fn spice(r: &mut Rng, f: &Fmt, ops: &mut [u128]) {
    match r.below(32) {
        0 | 1 => {
            let i = r.below(ops.len() as u64) as usize;
            ops[i] = any(r, f);
        }
        2 => {
            for o in ops.iter_mut() {
                *o = special(r, f);
            }
        }
        3 => {
            // zeros and infinities among finite operands
            for o in ops.iter_mut() {
                let n = r.bool();
                match r.below(4) {
                    0 | 1 => *o = inf(f, n),
                    2 => *o = pack(f, n, 0, 0),
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

/// Move a finite encoding by a few units in the last place (staying finite if it can).
pub fn nudge(r: &mut Rng, f: &Fmt, b: u128, k: i64) -> u128 {
    let d = r.range(-k, k);
    let mag = b & !f.sign_bit();
    let s = b & f.sign_bit();
    if f.x87 {
        // step through value order
        let mut v = decode(f, b);
        for _ in 0..d.abs() {
            let n = if d > 0 { next_up(f, &v).v } else { next_down(f, &v).v };
            if !n.is_finite() {
                break;
            }
            v = n;
        }
        return if v.is_nan() { b } else { encode(f, &v) };
    }
    let n = (mag as i128).wrapping_add(d as i128);
    if f.bits == 128 {
        let n = mag.wrapping_add(d as i128 as u128) & !f.sign_bit();
        return n | s;
    }
    if n < 0 {
        (-n) as u128 | (s ^ f.sign_bit())
    } else if n as u128 & f.sign_bit() != 0 {
        b
    } else {
        n as u128 | s
    }
}

/// (last-place exponent, P-bit-or-less significand) of a finite non-zero encoding.
fn parts(f: &Fmt, b: u128) -> Option<(u128, i64, bool)> {
    match decode(f, b) {
        V::Fin { neg, m, e } => {
            let (t, q) = canon(f, &m, e);
            Some((t, q, neg))
        }
        _ => None,
    }
}

pub fn add_pair(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let mut o = match r.below(12) {
        0 => [any(r, f), any(r, f)],
        1 | 2 | 3 => {
            // related exponents
            let a = finite(r, f);
            let (_, q, _) = parts(f, a).unwrap();
            let e = q + f.p - 1;
            let b = finite_in(r, f, e - f.p - 4, e + f.p + 4);
            [a, b]
        }
        4 => {
            // near-total cancellation
            let a = finite(r, f);
            let b = nudge(r, f, a ^ f.sign_bit(), 3);
            [a, b]
        }
        5 | 6 => {
            // tie: b is an odd number of half (quarter) units of a
            let a = finite(r, f);
            let (_, q, _) = parts(f, a).unwrap();
            let k = r.range(1, 3);
            let w = (f.p - 1).min(1 + r.below(f.p as u64) as i64);
            let m = (pattern(r, w) | 1) & low(f.p - 1);
            let neg = r.bool();
            let b = from_sig(f, neg, m.max(1), q - k);
            let b = if r.chance(1, 3) { nudge(r, f, b, 1) } else { b };
            [a, b]
        }
        7 => {
            // exactly half an ulp, a bit more, a bit less; also across a binade edge
            let e = exponent(r, f);
            let neg = r.bool();
            let frac = match r.below(3) {
                0 => 0,
                1 => low(f.p - 1),
                _ => pattern(r, f.p - 1),
            };
            let a = with_exp(f, neg, e, frac);
            let (_, q, _) = parts(f, a).unwrap();
            let n2 = r.bool();
            let k = r.range(0, 3);
            let b = from_sig(f, n2, 1, q - k);
            let b = nudge(r, f, b, 1);
            [a, b]
        }
        8 => {
            // around the overflow threshold
            let n = r.bool();
            let frac = pattern(r, f.p - 1);
            let de = r.range(0, 2);
            let a = with_exp(f, n, f.emax - de, frac);
            let e2 = f.emax - r.range(0, f.p + 3);
            let n2 = if r.chance(3, 4) { n } else { !n };
            let fr2 = if r.bool() { 0 } else { pattern(r, f.p - 1) };
            [a, with_exp(f, n2, e2, fr2)]
        }
        9 => {
            // around the subnormal threshold
            [finite_in(r, f, f.qmin(), f.emin + 3), finite_in(r, f, f.qmin(), f.emin + 3)]
        }
        10 => {
            // huge exponent difference: pure sticky
            let a = finite(r, f);
            let (_, q, _) = parts(f, a).unwrap();
            let e = q + f.p - 1;
            let b = finite_in(r, f, f.qmin(), e - f.p - 1);
            if r.bool() {
                [a, b]
            } else {
                [b, a]
            }
        }
        _ => {
            // cancellation leaving one low bit: a = 2^k, b = -(2^k - tiny)
            let e = exponent(r, f).max(f.emin + 1);
            let n = r.bool();
            let fr = pattern(r, 3);
            let a = with_exp(f, n, e, fr);
            let k = pattern(r, f.p - 1);
            let b = with_exp(f, !n, e - r.range(0, 1), k);
            [a, b]
        }
    };
    spice(r, f, &mut o);
    if r.bool() {
        (o[0], o[1])
    } else {
        (o[1], o[0])
    }
}

pub fn mul_pair(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let mut o = match r.below(11) {
        0 => [any(r, f), any(r, f)],
        1 | 2 => {
            // exponents balanced so that the product is in range
            let e = exponent(r, f);
            let a = finite(r, f);
            let (_, q, _) = parts(f, a).unwrap();
            let ea = q + f.p - 1;
            [a, finite_in(r, f, e - ea - 1, e - ea + 1)]
        }
        3 | 4 => {
            // product in or near the subnormal range
            let a = finite(r, f);
            let (_, q, _) = parts(f, a).unwrap();
            let ea = q + f.p - 1;
            [a, finite_in(r, f, f.qmin() - ea - 3, f.emin - ea + 2)]
        }
        5 => {
            // near overflow
            let a = finite(r, f);
            let (_, q, _) = parts(f, a).unwrap();
            let ea = q + f.p - 1;
            [a, finite_in(r, f, f.emax - ea - 2, f.emax - ea + 1)]
        }
        6 | 7 => {
            // exact products of p, p+1, p+2 significant bits (ties)
            let k = r.range(1, f.p - 1);
            let l = (f.p + r.range(0, 2) - k).clamp(1, f.p);
            let m1 = (pattern(r, k) | 1 | 1 << (k - 1)) & low(k);
            let m2 = (pattern(r, l) | 1 | 1 << (l - 1)) & low(l);
            let (n1, n2) = (r.bool(), r.bool());
            let e1 = exponent(r, f).clamp(-f.emax / 2 - 1, f.emax / 2);
            let e2 = if r.chance(1, 3) { f.emin - e1 - r.range(0, f.p) } else { exponent(r, f).clamp(-f.emax / 2, f.emax / 2) };
            [from_sig(f, n1, m1, e1 - k + 1), from_sig(f, n2, m2, e2 - l + 1)]
        }
        8 => {
            // (1 + x)(1 - y): products next to powers of two
            let e = exponent(r, f).clamp(-f.emax / 2, f.emax / 2);
            let k = r.below(f.p as u64 - 1) as i64;
            let l = r.below(f.p as u64 - 1) as i64;
            let fa = 1u128 << k;
            let fb = low(f.p - 1) - low(l);
            let (n1, n2) = (r.bool(), r.bool());
            let a = with_exp(f, n1, e, fa);
            let b = with_exp(f, n2, exponent(r, f).clamp(-f.emax / 2, f.emax / 2), fb);
            [nudge(r, f, a, 1), nudge(r, f, b, 1)]
        }
        9 => {
            // b close to target/a
            let a = finite(r, f);
            let t = finite(r, f);
            let x = finish(f, &div(f, &decode(f, t), &decode(f, a)), RNE);
            let b = encode(f, &x.v);
            [a, nudge(r, f, b, 1)]
        }
        _ => {
            // products near the overflow threshold from dense significands
            let e = r.range(0, f.emax);
            let (n1, n2) = (r.bool(), r.bool());
            let (p1, p2) = (low(f.p - 1) - pattern(r, f.p / 2), low(f.p - 1) - pattern(r, f.p / 2));
            [with_exp(f, n1, e, p1), with_exp(f, n2, f.emax - e - r.range(0, 1), p2)]
        }
    };
    spice(r, f, &mut o);
    if r.bool() {
        (o[0], o[1])
    } else {
        (o[1], o[0])
    }
}

pub fn div_pair(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let mut o = match r.below(13) {
        0 => [any(r, f), any(r, f)],
        1 | 2 => {
            let e = exponent(r, f);
            let b = finite(r, f);
            let (_, q, _) = parts(f, b).unwrap();
            let eb = q + f.p - 1;
            [finite_in(r, f, e + eb - 1, e + eb + 1), b]
        }
        3 | 4 => {
            // quotient in or near the subnormal range
            let b = finite(r, f);
            let (_, q, _) = parts(f, b).unwrap();
            let eb = q + f.p - 1;
            [finite_in(r, f, f.qmin() + eb - 3, f.emin + eb + 2), b]
        }
        5 => {
            // near overflow
            let b = finite(r, f);
            let (_, q, _) = parts(f, b).unwrap();
            let eb = q + f.p - 1;
            [finite_in(r, f, f.emax + eb - 2, f.emax + eb + 1), b]
        }
        6 | 7 => {
            // a = round(q * b), maybe nudged: quotients next to representable values
            let b = finite(r, f);
            let q = finite(r, f);
            let x = finish(f, &mul(f, &decode(f, q), &decode(f, b)), *r.pick(&MODES));
            let a = encode(f, &x.v);
            let a = if r.bool() { a } else { nudge(r, f, a, 1) };
            [a, b]
        }
        8 => {
            // exact quotient with few bits (subnormal ties)
            let k = r.range(1, f.p - 1);
            let l = r.range(1, (f.p - k).max(1));
            let mq = pattern(r, k) | 1;
            let mb = pattern(r, l) | 1;
            let (n1, n2) = (r.bool(), r.bool());
            let eb = exponent(r, f).clamp(-f.emax / 2, f.emax / 2);
            // quotient's last place a little below the smallest subnormal
            let eq = if r.bool() { f.qmin() - r.range(0, k + 1) } else { exponent(r, f) };
            [from_sig(f, n1, mq * mb, eq + eb), from_sig(f, n2, mb, eb)]
        }
        9 => {
            // equal or nearly equal significands
            let a = finite(r, f);
            let (t, _, n) = parts(f, a).unwrap();
            let e = exponent(r, f);
            let b = from_sig(f, n ^ r.bool(), t, e - f.p + 1);
            [a, nudge(r, f, b, 1)]
        }
        10 => {
            // divisor with few significant bits (short division paths)
            let k = *r.pick(&[1i64, 2, 3, 8, 31, 32, 33, 63, 64, 65]);
            let k = k.min(f.p);
            let mb = pattern(r, k) | 1;
            let n = r.bool();
            let e = exponent(r, f);
            [finite(r, f), from_sig(f, n, mb, e - k + 1)]
        }
        11 => {
            // power-of-two divisor
            let n = r.bool();
            let e = exponent(r, f);
            [finite(r, f), with_exp(f, n, e, 0)]
        }
        _ => {
            let k = *r.pick(&[8i64, 31, 32, 33, 63, 64, 65]);
            let k = k.min(f.p);
            let (m1, m2) = (pattern(r, k) | 1, pattern(r, k) | 1);
            let (n1, n2) = (r.bool(), r.bool());
            let (e1, e2) = (exponent(r, f), exponent(r, f));
            [from_sig(f, n1, m1, e1), from_sig(f, n2, m2, e2)]
        }
    };
    spice(r, f, &mut o);
    (o[0], o[1])
}

pub fn fma_triple(r: &mut Rng, f: &Fmt) -> (u128, u128, u128) {
    let (a, b) = match r.below(8) {
        0 => (any(r, f), any(r, f)),
        1 => (finite_in(r, f, f.qmin(), f.emin + 2), finite(r, f)),
        2 => {
            // small significands
            let (x, y) = (r.range(1, f.p), r.range(1, f.p));
            let (m1, m2) = (pattern(r, x) | 1, pattern(r, y) | 1);
            let (n1, n2) = (r.bool(), r.bool());
            let (e1, e2) = (exponent(r, f).clamp(-f.emax / 2, f.emax / 2), exponent(r, f).clamp(-f.emax / 2, f.emax / 2));
            (from_sig(f, n1, m1, e1), from_sig(f, n2, m2, e2))
        }
        _ => mul_pair(r, f),
    };
    let (va, vb) = (decode(f, a), decode(f, b));
    let mut o = [a, b, 0];
    o[2] = match (&va, &vb) {
        (V::Fin { m: am, e: ae, .. }, V::Fin { m: bm, e: be, .. }) => {
            let pn = va.neg() != vb.neg();
            let pm = am.mul(bm);
            let pe = ae + be;
            let top = pm.bits() - 1 + pe;
            match r.below(10) {
                0 => any(r, f),
                1 | 2 => {
                    // c = -round(a*b): cancellation down to the product's low half
                    let x = round_real(f, pn, &pm, pe, false, *r.pick(&MODES));
                    let c = encode(f, &x.v) ^ f.sign_bit();
                    if r.bool() {
                        c
                    } else {
                        nudge(r, f, c, 2)
                    }
                }
                3 | 4 => finite_in(r, f, top - 2 * f.p - 4, top + f.p + 4),
                5 => {
                    // c dominates; the product is around its half ulp
                    let e = top + r.range(0, 3) + f.p - 1;
                    finite_in(r, f, e, e)
                }
                6 => {
                    // tiny c below the product's last bits
                    let n = r.bool();
                    from_sig(f, n, 1, (top - f.p - r.range(-2, f.p + 4)).max(f.qmin()))
                }
                7 => {
                    // total range extremes
                    let n = r.bool();
                    let k = pattern(r, f.p - 1);
                    let e = if r.bool() { f.emax } else { f.emin - r.range(0, f.p) };
                    with_exp(f, n, e, k)
                }
                8 => pack(f, r.bool(), 0, 0),
                _ => {
                    // half-ulp correction of the rounded product: product + c on a tie
                    let q = (top - (f.p - 1)).max(f.qmin());
                    let (t, _) = split(&pm, pe, false, q);
                    // want c = (t + 1/2)*2^q - product when representable
                    let want = t.shl(1).add(&Big::one());
                    let lo = pe.min(q - 1);
                    let (w, p) = (want.shl(q - 1 - lo), pm.shl(pe - lo));
                    let (neg, d) = if w.cmp(&p) == std::cmp::Ordering::Less { (true, p.sub(&w)) } else { (false, w.sub(&p)) };
                    if d.is_zero() {
                        pack(f, r.bool(), 0, 0)
                    } else {
                        let c = encode(f, &round_real(f, neg != pn, &d, lo, false, RTZ).v);
                        if r.chance(1, 4) {
                            nudge(r, f, c, 1)
                        } else {
                            c
                        }
                    }
                }
            }
        }
        _ => any(r, f),
    };
    spice(r, f, &mut o);
    (o[0], o[1], o[2])
}

pub fn rem_pair(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let mut o = match r.below(9) {
        0 => [any(r, f), any(r, f)],
        1 => [finite(r, f), finite(r, f)],
        2 | 3 => {
            let b = finite(r, f);
            let (_, q, _) = parts(f, b).unwrap();
            let eb = q + f.p - 1;
            [finite_in(r, f, eb - 3, eb + f.p + 5), b]
        }
        4 | 5 => {
            // a = (n + 1/2) * b or n * b, exactly or nearly
            let k = r.range(1, f.p.min(20));
            let l = (f.p - k).max(1);
            let n = pattern(r, k) | r.below(2) as u128;
            let mb = pattern(r, l) | 1;
            let e = exponent(r, f).max(f.qmin() + 1);
            let (n1, n2) = (r.bool(), r.bool());
            let a = if n * mb == 0 { from_sig(f, n1, mb, e - 1) } else { from_sig(f, n1, n * mb, e - 1) };
            let b = from_sig(f, n2, mb, e);
            [if r.bool() { a } else { nudge(r, f, a, 1) }, b]
        }
        6 => {
            // near the top of the range: 2*b overflows
            [finite_in(r, f, f.emax - 3, f.emax), finite_in(r, f, f.emax - 3, f.emax)]
        }
        7 => {
            // subnormals
            [finite_in(r, f, f.qmin(), f.emin + f.p), finite_in(r, f, f.qmin(), f.emin + 1)]
        }
        _ => {
            // close operands
            let a = finite(r, f);
            let b = nudge(r, f, a, 2);
            let (_, q, n) = parts(f, a).unwrap();
            if r.bool() {
                [a, b]
            } else {
                // b around half of a
                let (t, _, _) = parts(f, a).unwrap();
                let h = from_sig(f, n, t, q - r.range(0, 2));
                [a, nudge(r, f, h, 1)]
            }
        }
    };
    spice(r, f, &mut o);
    (o[0], o[1])
}

/// Any unary operand, with emphasis on values with fraction bits around the units place.
pub fn integral_arg(r: &mut Rng, f: &Fmt) -> u128 {
    match r.below(6) {
        0 | 1 => any(r, f),
        2 => finite_in(r, f, -3, f.p + 2),
        3 => {
            // k + 1/2, k + 1/4, ... for P-bit k
            let nb = r.range(1, f.p);
            let m = pattern(r, nb) | r.below(4) as u128;
            let n = r.bool();
            let b = from_sig(f, n, m.max(1), -r.range(0, 3));
            if r.bool() {
                b
            } else {
                nudge(r, f, b, 1)
            }
        }
        4 => {
            // all ones around 2^k
            let e = r.range(-2, f.p + 1);
            let n = r.bool();
            let fr = if r.bool() { low(f.p - 1) } else { 0 };
            let b = with_exp(f, n, e, fr);
            nudge(r, f, b, 2)
        }
        _ => finite_in(r, f, -1, 1),
    }
}

/// Source values near the rounding and range boundaries of a target format.
pub fn convert_arg(r: &mut Rng, f: &Fmt, t: &Fmt) -> u128 {
    match r.below(8) {
        0 | 1 => any(r, f),
        2 | 3 => {
            // a target value, or the midpoint between two, plus or minus a little
            let v = decode(t, finite(r, t));
            if let V::Fin { neg, m, e } = v {
                let (s, q) = canon(t, &m, e);
                let k = r.range(0, 3);
                let m2 = Big::from_u128(s).shl(k).add(&Big::from_u128(r.below(1 << k) as u128));
                let o = round_real(f, neg, &m2, q - k, false, *r.pick(&MODES));
                let b = encode(f, &o.v);
                if r.bool() {
                    b
                } else {
                    nudge(r, f, b, 1)
                }
            } else {
                any(r, f)
            }
        }
        4 => finite_in(r, f, t.emax - 2, t.emax + 2),
        5 => finite_in(r, f, t.qmin() - 3, t.emin + 2),
        6 => {
            let n = r.bool();
            let m = t.max_sig();
            let k = r.range(1, 3);
            // largest target value plus fractions of an ulp
            let d = r.below(1 << (k + 1)) as u128;
            let o = round_real(f, n, &Big::from_u128(m).shl(k).add(&Big::from_u128(d)), t.emax - t.p + 1 - k, false, RTZ);
            let b = encode(f, &o.v);
            nudge(r, f, b, 1)
        }
        _ => {
            if r.bool() {
                nan(r, f)
            } else {
                special(r, f)
            }
        }
    }
}

/// A 128-bit integer with interesting length and tail for a format.
pub fn int_arg(r: &mut Rng, f: &Fmt) -> u128 {
    match r.below(8) {
        0 => r.u128(),
        1 => {
            let n = r.range(1, 128);
            pattern(r, n)
        }
        2 | 3 => {
            // P-bit head, then 10..0, 01..1, 10..01 tails
            let n = r.range(1, 128);
            if n <= f.p {
                return pattern(r, n) | 1 << (n - 1);
            }
            let t = n - f.p;
            let head = pattern(r, f.p) | 1 << (f.p - 1);
            let tail = match r.below(5) {
                0 => 0,
                1 => 1u128 << (t - 1),
                2 => (1u128 << (t - 1)).wrapping_add(r.below(3) as u128) & low(t),
                3 => (1u128 << (t - 1)).wrapping_sub(1 + r.below(2) as u128) & low(t),
                _ => pattern(r, t),
            };
            head << t | tail
        }
        4 => {
            // around the overflow threshold of the format
            if f.emax < 127 {
                let m = f.max_sig();
                let sh = f.emax - (f.p - 1);
                if sh < 0 {
                    return m >> -sh;
                }
                let x = m << sh;
                let half = if sh > 0 { 1u128 << (sh - 1) } else { 1 };
                x.wrapping_add(match r.below(4) {
                    0 => half,
                    1 => half.wrapping_sub(1),
                    2 => half + 1,
                    _ => half * 2,
                })
            } else {
                (!0u128).wrapping_sub(r.below(4) as u128)
            }
        }
        5 => {
            let k = r.range(0, 127);
            (1u128 << k).wrapping_add(r.range(-2, 2) as i128 as u128)
        }
        6 => r.below(1000) as u128,
        _ => {
            let k = r.range(0, 127);
            (!0u128 >> k).wrapping_sub(r.below(3) as u128)
        }
    }
}

// ------------------------------------------------------------------ text

/// Decimal digits of a value on or next to a rounding boundary of the format:
/// returns (digits, exponent of the last digit).
pub fn boundary_decimal(r: &mut Rng, f: &Fmt) -> (Vec<u8>, i64) {
    let (s, q) = loop {
        let b = match r.below(8) {
            0 => special(r, f),
            1 => pack(f, false, 0, 1 + r.below(8) as u128),
            2 => with_exp(f, false, f.emax - r.range(0, 1), low(f.p - 1) - r.below(3) as u128),
            3 => with_exp(f, false, f.emin, r.below(3) as u128),
            _ => finite(r, f),
        };
        if let Some((s, q, _)) = parts(f, b) {
            break (s, q);
        }
    };
    // Large exponents make long strings; shorten the range for the wide formats most of the time.
    let q = if (q > 2500 || q < -2500) && !r.chance(1, 24) { r.range(-300, 300) } else { q };
    // s, s + 1/2, or a quarter point
    let k = *r.pick(&[0i64, 1, 1, 1, 1, 2]);
    let m = Big::from_u128(s).shl(k).add(&Big::from_u128(if k == 0 { 0 } else { 1 + 2 * r.below(k as u64) as u128 }));
    let m = if r.chance(1, 40) { Big::one() } else { m };
    to_decimal(&m, q - k)
}

/// Nudge an exact decimal string: leave, append a tail, or subtract one far out.
pub fn perturb_decimal(r: &mut Rng, d: &mut Vec<u8>, e: &mut i64) {
    match r.below(6) {
        0 | 1 => {}
        2 => {
            // a little more
            let z = [0u64, 1, 5, 20, 60, 200, 700][r.below(7) as usize];
            for _ in 0..z {
                d.push(b'0');
            }
            d.push(b'0' + 1 + r.below(9) as u8);
            *e -= z as i64 + 1;
        }
        3 => {
            // a little less: ...d -> ...(d-1)999
            let z = [1u64, 2, 5, 20, 60, 200, 700][r.below(7) as usize];
            if let Some(i) = d.iter().rposition(|&c| c != b'0') {
                d[i] -= 1;
                for c in &mut d[i + 1..] {
                    *c = b'9';
                }
                for _ in 0..z {
                    d.push(b'9');
                }
                *e -= z as i64;
            }
        }
        4 => {
            // truncate
            let n = 1 + r.below(d.len() as u64) as usize;
            *e += (d.len() - n) as i64;
            d.truncate(n);
            if r.bool() && *d.last().unwrap() != b'9' {
                *d.last_mut().unwrap() += 1;
            }
        }
        _ => {
            // trailing zeros
            let z = r.below(30);
            for _ in 0..z {
                d.push(b'0');
            }
            *e -= z as i64;
        }
    }
}

/// Write digits * 10^exp with a point and an exponent, in one of many spellings.
pub fn spell_decimal(r: &mut Rng, neg: bool, d: &[u8], exp: i64) -> String {
    let mut s = String::new();
    match (neg, r.below(3)) {
        (true, _) => s.push('-'),
        (false, 0) => s.push('+'),
        _ => {}
    }
    for _ in 0..if r.chance(1, 4) { r.below(6) } else { 0 } {
        s.push('0');
    }
    let n = d.len() as i64;
    let style = r.below(6);
    // `pt` digits stand before the point.
    let (pt, pad) = match style {
        0 => (n, 0),                       // no point
        1 => (1.min(n), 0),                // d.ddd
        2 => (0, 0),                       // .ddd
        3 => (r.range(0, n), 0),           // anywhere
        4 => (0, r.below(12) as i64),      // 0.000ddd
        _ => (n, -(r.below(12) as i64)),   // ddd000
    };
    let ds = std::str::from_utf8(d).unwrap();
    let mut x = exp;
    if pad < 0 {
        s.push_str(ds);
        for _ in 0..-pad {
            s.push('0');
        }
        x += pad;
        if r.bool() {
            s.push('.');
        }
    } else if pt == n && pad == 0 {
        s.push_str(ds);
        if r.chance(1, 3) {
            s.push('.');
            if r.bool() {
                s.push('0');
            }
        }
    } else {
        s.push_str(&ds[..pt as usize]);
        if pt == 0 && r.bool() {
            s.push('0');
        }
        s.push('.');
        for _ in 0..pad {
            s.push('0');
        }
        s.push_str(&ds[pt as usize..]);
        x += n - pt + pad;
    }
    if x != 0 || r.chance(1, 3) {
        s.push(if r.bool() { 'e' } else { 'E' });
        if x < 0 {
            s.push('-');
        } else if r.bool() {
            s.push('+');
        }
        for _ in 0..if r.chance(1, 8) { r.below(5) } else { 0 } {
            s.push('0');
        }
        s.push_str(&x.abs().to_string());
    }
    s
}

/// Read back a decimal string of the plain grammar (our own generator's output): digits and exponent.
pub fn read_decimal(s: &str) -> (bool, Vec<u8>, i64) {
    let b = s.as_bytes();
    let (neg, mut i) = match b[0] {
        b'-' => (true, 1),
        b'+' => (false, 1),
        _ => (false, 0),
    };
    let mut d = vec![];
    let mut after = 0i64;
    let mut dot = false;
    while i < b.len() {
        match b[i] {
            b'0'..=b'9' => {
                d.push(b[i]);
                if dot {
                    after += 1;
                }
            }
            b'.' => dot = true,
            _ => break,
        }
        i += 1;
    }
    let mut x: i64 = 0;
    if i < b.len() {
        i += 1;
        let mut en = false;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            en = b[i] == b'-';
            i += 1;
        }
        while i < b.len() {
            x = (x * 10 + (b[i] - b'0') as i64).min(1 << 50);
            i += 1;
        }
        if en {
            x = -x;
        }
    }
    (neg, d, x - after)
}
