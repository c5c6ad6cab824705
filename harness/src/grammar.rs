//! The number grammar, recognised by hand (byte by byte, independent of the library),
//! and generators of strings in, near and far from it.

use crate::big::Big;
use crate::model::{self, Cls, Ex, Fmt, Out, V};
use crate::rng::Rng;

#[derive(Debug, Clone, PartialEq)]
pub enum P {
    Reject,
    Inf(bool),
    Nan { neg: bool, signaling: bool, payload: Option<u128> },
    /// digits (ASCII, possibly all zero) * 10^exp
    Dec { neg: bool, d: Vec<u8>, exp: i64 },
    /// digits (hex, ASCII) * 2^exp
    Hex { neg: bool, d: Vec<u8>, exp: i64 },
}

const CAP: i64 = 1 << 40;

fn number(b: &[u8], hex: bool) -> Option<(Vec<u8>, i64)> {
    let mut d = vec![];
    let mut i = 0;
    let mut dot = false;
    let mut after = 0i64;
    while i < b.len() {
        let c = b[i];
        let digit = c.is_ascii_digit() || hex && c.is_ascii_hexdigit();
        if digit {
            d.push(c);
            after += dot as i64;
        } else if c == b'.' {
            if dot {
                return None;
            }
            dot = true;
        } else {
            break;
        }
        i += 1;
    }
    if d.is_empty() {
        return None;
    }
    let unit = if hex { 4 } else { 1 };
    if i == b.len() {
        return if hex { None } else { Some((d, -after)) };
    }
    let mark = b[i] | 0x20;
    if mark != if hex { b'p' } else { b'e' } {
        return None;
    }
    i += 1;
    let mut neg = false;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        neg = b[i] == b'-';
        i += 1;
    }
    if hex && i == b.len() {
        return None;
    }
    let mut x = 0i64;
    for &c in &b[i..] {
        if !c.is_ascii_digit() {
            return None;
        }
        x = (x * 10 + (c - b'0') as i64).min(CAP);
    }
    Some((d, if neg { -x } else { x } - unit * after))
}

fn payload(s: &[u8]) -> Option<Option<u128>> {
    if s.is_empty() {
        return Some(None);
    }
    let (radix, s) = if s.len() > 2 && s[0] == b'0' && s[1] | 0x20 == b'x' {
        (16u128, &s[2..])
    } else if s.len() > 1 && s[0] == b'0' {
        (8, &s[1..])
    } else {
        (10, s)
    };
    let mut v = 0u128;
    for &c in s {
        let x = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        } as u128;
        if x >= radix {
            return None;
        }
        v = v.checked_mul(radix)?.checked_add(x)?;
    }
    Some(Some(v))
}

pub fn parse(s: &str) -> P {
    let b = s.as_bytes();
    let (neg, plus, r) = match b.first() {
        Some(b'-') => (true, false, &b[1..]),
        Some(b'+') => (false, true, &b[1..]),
        _ => (false, false, b),
    };
    if r == b"Inf" {
        return if neg || plus { P::Inf(neg) } else { P::Reject };
    }
    if r == b"inf" || r == b"INFINITY" {
        return if plus { P::Reject } else { P::Inf(neg) };
    }
    let (signaling, n) = match r.first() {
        Some(b's' | b'S') => (true, &r[1..]),
        _ => (false, r),
    };
    if n.starts_with(b"nan") || n.starts_with(b"NaN") {
        let mut t = &n[3..];
        if t.len() > 2 && t[0] == b'(' && t[t.len() - 1] == b')' {
            t = &t[1..t.len() - 1];
        }
        return match payload(t) {
            Some(payload) if !plus => P::Nan { neg, signaling, payload },
            _ => P::Reject,
        };
    }
    if r.len() >= 2 && r[0] == b'0' && r[1] | 0x20 == b'x' {
        return match number(&r[2..], true) {
            Some((d, exp)) => P::Hex { neg, d, exp },
            None => P::Reject,
        };
    }
    match number(r, false) {
        Some((d, exp)) => P::Dec { neg, d, exp },
        None => P::Reject,
    }
}

/// The exact value of an accepted string (before rounding).
pub fn exact(f: &Fmt, p: &P) -> Ex {
    match p {
        P::Reject => unreachable!(),
        P::Inf(neg) => Ex::Fixed(Out::new(model::infinity(f, *neg), 0, Cls::Inf)),
        P::Nan { neg, signaling, payload } => {
            let v = model::make_nan(f, *signaling, *payload);
            Ex::Fixed(Out::new(if *neg { v.negated() } else { v }, 0, Cls::NanProp))
        }
        P::Dec { neg, d, exp } => model::exact_decimal(f, *neg, d, *exp),
        P::Hex { neg, d, exp } => {
            let lead = d.iter().take_while(|&&c| c == b'0').count();
            let d2 = &d[lead..];
            if d2.is_empty() {
                return Ex::Fixed(Out::new(V::Zero(*neg), 0, Cls::ZeroExact));
            }
            let top = *exp + 4 * d2.len() as i64;
            if top > f.emax + 50 {
                return Ex::Real { neg: *neg, m: Big::one(), e: f.emax + 100, sticky: false };
            }
            if top < f.qmin() - 50 {
                return Ex::Real { neg: *neg, m: Big::one(), e: f.qmin() - 100, sticky: true };
            }
            let mut m = Big::zero();
            for &c in d2 {
                m = m.shl(4).add(&Big::from_u128((c as char).to_digit(16).unwrap() as u128));
            }
            Ex::Real { neg: *neg, m, e: *exp, sticky: false }
        }
    }
}

pub const ALPHABET: &[u8] = b"019.eEpPxX+-afFnNsSiI() 78";

/// Pieces that strings are glued from.
const PIECES: &[&str] = &[
    "0", "1", "9", "12", "345", "00", "000000", ".", ".", "e", "E", "p", "P", "0x", "0X", "x", "+", "-", "+", "-", "Inf", "inf", "INFINITY", "Infinity",
    "INF", "nan", "NaN", "NAN", "Nan", "s", "S", "snan", "sNaN", "SNaN", "(", ")", "()", "(1)", "(0x1f)", "(017)", "(08)", "(0x)", "(+5)", "0x1f", "017",
    "08", "0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "0x100000000000000000000000000000000", "340282366920938463463374607431768211455",
    "340282366920938463463374607431768211456", "e5", "e+", "e-", "E-3", "p0", "p+", "p-1", "P10", "a", "f", "F", "g", "_", " ", "\t", "\n", "\0", "é",
    "１", "٣", "∞", "−", "𝟙", "e99999999999999999999", "p99999999999999999999", "e-99999999999999999999", "p-99999999999999999999", "l", "L", "d", "i", "n",
    "N", "I", ",", "'", "1e1", "0x1p1", "1.5", "0x.8p1", ".5", "5.",
];

pub fn string(r: &mut Rng) -> String {
    let mut s = match r.below(8) {
        0 | 1 | 2 => {
            let n = 1 + r.below(6);
            (0..n).map(|_| *r.pick(PIECES)).collect::<String>()
        }
        3 => {
            let n = 1 + r.below(9);
            (0..n).map(|_| *r.pick(ALPHABET) as char).collect()
        }
        4 => {
            // a valid number
            let sign = ["", "-", "+"][r.below(3) as usize];
            let digs = |r: &mut Rng, hex: bool, max: u64| -> String {
                (0..r.below(max + 1)).map(|_| if hex { *r.pick(b"0123456789abcdefABCDEF") as char } else { *r.pick(b"0123456789") as char }).collect()
            };
            if r.bool() {
                let (a, b, c) = (digs(r, true, 9), digs(r, true, 9), digs(r, false, 4));
                format!("{}0{}{}.{}{}{}{}", sign, if r.bool() { "x" } else { "X" }, a, b, if r.bool() { "p" } else { "P" }, ["", "-", "+"][r.below(3) as usize], c)
            } else {
                let (a, b, c) = (digs(r, false, 9), digs(r, false, 9), digs(r, false, 4));
                format!("{}{}.{}{}{}{}", sign, a, b, if r.bool() { "e" } else { "E" }, ["", "-", "+"][r.below(3) as usize], c)
            }
        }
        5 => {
            // a NaN with a payload
            let n = r.below(30);
            let d: String = match r.below(3) {
                0 => format!("0{}{}", if r.bool() { "x" } else { "X" }, (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect::<String>()),
                1 => format!("0{}", (0..n).map(|_| *r.pick(b"01234567") as char).collect::<String>()),
                _ => (0..n).map(|_| *r.pick(b"0123456789") as char).collect(),
            };
            let d = if r.bool() { format!("({})", d) } else { d };
            format!("{}{}{}{}", ["", "", "-", "+"][r.below(4) as usize], ["", "s", "S"][r.below(3) as usize], ["nan", "NaN"][r.below(2) as usize], d)
        }
        6 => {
            // a word
            format!("{}{}", ["", "-", "+"][r.below(3) as usize], ["Inf", "inf", "INFINITY", "nan", "NaN", "sNaN", "Snan", "INF", "Infinity", "infinity"][r.below(10) as usize])
        }
        _ => {
            let n = r.below(12);
            (0..n).map(|_| char::from_u32(match r.below(4) {
                0 => r.below(0x80),
                1 => r.below(0x800),
                2 => r.below(0xd800),
                _ => 0x10000 + r.below(0xfffff),
            } as u32).unwrap_or('?')).collect()
        }
    };
    // one edit
    if r.chance(1, 4) {
        let mut cs: Vec<char> = s.chars().collect();
        let p = r.below(cs.len() as u64 + 1) as usize;
        match r.below(4) {
            0 => cs.insert(p, *r.pick(ALPHABET) as char),
            1 if p < cs.len() => {
                cs.remove(p);
            }
            2 if p < cs.len() => cs[p] = *r.pick(ALPHABET) as char,
            _ => {
                let t: String = r.pick(PIECES).to_string();
                for (i, c) in t.chars().enumerate() {
                    cs.insert(p + i, c);
                }
            }
        }
        s = cs.into_iter().collect();
    }
    s
}
