//! Minimal arbitrary-precision unsigned integers, written for the oracle only
//! (no code shared with the library under test).

use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Big(Vec<u64>); // little endian, no trailing zero limbs

impl Big {
    pub fn zero() -> Big {
        Big(Vec::new())
    }
    pub fn one() -> Big {
        Big(vec![1])
    }
    pub fn from_u128(x: u128) -> Big {
        let mut b = Big(vec![x as u64, (x >> 64) as u64]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    /// Number of significant bits (0 for zero).
    pub fn bits(&self) -> i64 {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() as i64 * 64 - t.leading_zeros() as i64,
        }
    }
    pub fn bit(&self, i: i64) -> bool {
        if i < 0 {
            return false;
        }
        let (w, b) = ((i / 64) as usize, i % 64);
        self.0.get(w).map_or(false, |x| (x >> b) & 1 != 0)
    }
    pub fn is_odd(&self) -> bool {
        self.bit(0)
    }
    /// True if any of the low `n` bits is set.
    pub fn low_nonzero(&self, n: i64) -> bool {
        if n <= 0 {
            return false;
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        for (i, &x) in self.0.iter().enumerate() {
            if i < w {
                if x != 0 {
                    return true;
                }
            } else if i == w {
                return b > 0 && (x & ((1u64 << b) - 1)) != 0;
            } else {
                return false;
            }
        }
        false
    }
    pub fn trailing_zeros(&self) -> i64 {
        for (i, &x) in self.0.iter().enumerate() {
            if x != 0 {
                return i as i64 * 64 + x.trailing_zeros() as i64;
            }
        }
        0
    }
    pub fn shl(&self, n: i64) -> Big {
        debug_assert!(n >= 0);
        if self.is_zero() {
            return Big::zero();
        }
        let (w, b) = ((n / 64) as usize, (n % 64) as u32);
        let mut v = Vec::with_capacity(self.0.len() + w + 1);
        v.resize(w, 0);
        if b == 0 {
            v.extend_from_slice(&self.0);
        } else {
            let mut c = 0u64;
            for &x in &self.0 {
                v.push((x << b) | c);
                c = x >> (64 - b);
            }
            if c != 0 {
                v.push(c);
            }
        }
        Big(v)
    }
    pub fn shr(&self, n: i64) -> Big {
        debug_assert!(n >= 0);
        let (w, b) = ((n / 64) as usize, (n % 64) as u32);
        if w >= self.0.len() {
            return Big::zero();
        }
        let s = &self.0[w..];
        let mut v = Vec::with_capacity(s.len());
        for i in 0..s.len() {
            let mut x = s[i] >> b;
            if b > 0 && i + 1 < s.len() {
                x |= s[i + 1] << (64 - b);
            }
            v.push(x);
        }
        let mut r = Big(v);
        r.trim();
        r
    }
    /// Shift by a signed amount; right shifts must be exact (checked).
    pub fn shift_exact(&self, n: i64) -> Big {
        if n >= 0 {
            self.shl(n)
        } else {
            assert!(!self.low_nonzero(-n), "oracle: inexact shift");
            self.shr(-n)
        }
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for (a, b) in self.0.iter().rev().zip(o.0.iter().rev()) {
                match a.cmp(b) {
                    Ordering::Equal => {}
                    r => return r,
                }
            }
            Ordering::Equal
        })
    }
    pub fn add(&self, o: &Big) -> Big {
        let (l, s) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut v = Vec::with_capacity(l.0.len() + 1);
        let mut c = 0u128;
        for i in 0..l.0.len() {
            let t = l.0[i] as u128 + s.0.get(i).copied().unwrap_or(0) as u128 + c;
            v.push(t as u64);
            c = t >> 64;
        }
        if c != 0 {
            v.push(c as u64);
        }
        Big(v)
    }
    /// `self - o`, which must not be negative.
    pub fn sub(&self, o: &Big) -> Big {
        let mut v = Vec::with_capacity(self.0.len());
        let mut borrow = 0i128;
        for i in 0..self.0.len() {
            let t = self.0[i] as i128 - o.0.get(i).copied().unwrap_or(0) as i128 - borrow;
            if t < 0 {
                v.push((t + (1i128 << 64)) as u64);
                borrow = 1;
            } else {
                v.push(t as u64);
                borrow = 0;
            }
        }
        assert!(borrow == 0 && o.0.len() <= self.0.len(), "oracle: negative difference");
        let mut r = Big(v);
        r.trim();
        r
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big::zero();
        }
        let mut v = vec![0u64; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u128 * b as u128 + v[i + j] as u128 + c;
                v[i + j] = t as u64;
                c = t >> 64;
            }
            v[i + o.0.len()] = c as u64;
        }
        let mut r = Big(v);
        r.trim();
        r
    }
    pub fn mul_small(&mut self, m: u64) {
        let mut c = 0u128;
        for x in &mut self.0 {
            let t = *x as u128 * m as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        if c != 0 {
            self.0.push(c as u64);
        }
        self.trim();
    }
    pub fn add_small(&mut self, a: u64) {
        let mut c = a;
        for x in &mut self.0 {
            let (r, o) = x.overflowing_add(c);
            *x = r;
            c = o as u64;
            if c == 0 {
                break;
            }
        }
        if c != 0 {
            self.0.push(c);
        }
    }
    /// Divide in place by a small number, returning the remainder.
    pub fn divrem_small(&mut self, d: u64) -> u64 {
        let mut rem = 0u128;
        for x in self.0.iter_mut().rev() {
            let t = (rem << 64) | *x as u128;
            *x = (t / d as u128) as u64;
            rem = t % d as u128;
        }
        self.trim();
        rem as u64
    }
    /// (quotient, remainder), schoolbook (Knuth D).
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "oracle: division by zero");
        if self.cmp(d) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let mut q = self.clone();
            let r = q.divrem_small(d.0[0]);
            return (q, Big::from_u128(r as u128));
        }
        let s = d.0.last().unwrap().leading_zeros() as i64;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        u.resize(self.0.len() + 1, 0);
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u64; m];
        let b = 1u128 << 64;
        for j in (0..m).rev() {
            let top = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
            let mut qhat = top / v[n - 1] as u128;
            let mut rhat = top % v[n - 1] as u128;
            while qhat >= b || qhat * v[n - 2] as u128 > ((rhat << 64) | u[j + n - 2] as u128) {
                qhat -= 1;
                rhat += v[n - 1] as u128;
                if rhat >= b {
                    break;
                }
            }
            let mut borrow = 0i128;
            let mut carry = 0u128;
            for i in 0..n {
                let p = qhat * v[i] as u128 + carry;
                carry = p >> 64;
                let t = u[i + j] as i128 - (p as u64) as i128 - borrow;
                u[i + j] = t as u64;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i128 - carry as i128 - borrow;
            u[j + n] = t as u64;
            if t < 0 {
                qhat -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    let t = u[i + j] as u128 + v[i] as u128 + c;
                    u[i + j] = t as u64;
                    c = t >> 64;
                }
                u[j + n] = u[j + n].wrapping_add(c as u64);
            }
            q[j] = qhat as u64;
        }
        let mut q = Big(q);
        q.trim();
        let mut r = Big(u[..n].to_vec());
        r.trim();
        (q, r.shr(s))
    }
    pub fn pow(base: u64, mut n: u64) -> Big {
        let mut r = Big::one();
        let mut b = Big::from_u128(base as u128);
        while n > 0 {
            if n & 1 != 0 {
                r = r.mul(&b);
            }
            n >>= 1;
            if n > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn pow2(n: i64) -> Big {
        Big::one().shl(n)
    }
    /// The low 128 bits; panics if there are more.
    pub fn to_u128_checked(&self) -> Option<u128> {
        if self.bits() <= 120 { Some(self.to_u128()) } else { None }
    }
    pub fn to_u128(&self) -> u128 {
        assert!(self.0.len() <= 2, "oracle: value too large");
        self.0.first().copied().unwrap_or(0) as u128 | (self.0.get(1).copied().unwrap_or(0) as u128) << 64
    }
    pub fn from_dec(digits: &[u8]) -> Big {
        let mut r = Big::zero();
        for ch in digits.chunks(18) {
            let mut v = 0u64;
            let mut m = 1u64;
            for &d in ch {
                v = v * 10 + (d - b'0') as u64;
                m *= 10;
            }
            r.mul_small(m);
            if v != 0 {
                if r.is_zero() {
                    r = Big::from_u128(v as u128);
                } else {
                    r.add_small(v);
                }
            }
        }
        r
    }
    /// Decimal digits, most significant first ("0" for zero).
    pub fn to_dec(&self) -> Vec<u8> {
        if self.is_zero() {
            return vec![b'0'];
        }
        let mut x = self.clone();
        let mut out = Vec::new();
        while !x.is_zero() {
            let mut r = x.divrem_small(1_000_000_000_000_000_000);
            for _ in 0..18 {
                out.push(b'0' + (r % 10) as u8);
                r /= 10;
            }
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        out.reverse();
        out
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::rng::Rng;
    #[test]
    fn laws() {
        let mut r = Rng::new(1);
        let rnd = |r: &mut Rng| {
            let n = r.below(9);
            let mut b = Big((0..n)
                .map(|_| match r.below(4) {
                    0 => !0,
                    1 => 0,
                    2 => 1 << r.below(64),
                    _ => r.u64(),
                })
                .collect());
            b.trim();
            b
        };
        for _ in 0..200000 {
            let (a, b, c) = (rnd(&mut r), rnd(&mut r), rnd(&mut r));
            assert_eq!(a.add(&b).sub(&b), a);
            assert_eq!(a.mul(&b), b.mul(&a));
            assert_eq!(a.add(&b).mul(&c), a.mul(&c).add(&b.mul(&c)));
            if !b.is_zero() {
                let (q, m) = a.divrem(&b);
                assert!(m.cmp(&b) == Ordering::Less);
                assert_eq!(q.mul(&b).add(&m), a);
            }
            let n = r.below(200) as i64;
            assert_eq!(a.shl(n).shr(n), a);
            assert_eq!(a.shr(n).shl(n) != a, a.low_nonzero(n));
            assert_eq!(Big::from_dec(&a.to_dec()), a);
            assert_eq!(a.shl(n), a.mul(&Big::pow(2, n as u64)));
        }
    }
}
