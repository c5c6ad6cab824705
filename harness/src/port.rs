//! One call of the library as a message, its answer as a message: the part of E03's monitor that
//! also runs on other machines. Depends on nothing but `std` and the library (also compiled as
//! part of the crate in `/verif/port`).
use rustc_apfloat::ieee::{self, IeeeFloat, NonfiniteBehavior, Semantics};
use rustc_apfloat::ppc::DoubleDouble;
use rustc_apfloat::{Category, Float, FloatConvert, Round, StatusAnd};
use std::fmt::Write;

macro_rules! own {
    ($($n:ident $b:literal $e:literal $no:literal;)*) => { $(
        pub struct $n;
        impl Semantics for $n {
            const BITS: usize = $b;
            const EXP_BITS: usize = $e;
            const NONFINITE_BEHAVIOR: NonfiniteBehavior = if $no { NonfiniteBehavior::NanOnly } else { NonfiniteBehavior::IEEE754 };
        }
    )* };
}
own! { P70 70 10 false; P128 128 8 false; P6 6 3 true; P9 9 5 false; }

pub const OPS: [&str; 26] = [
    "add_r", "sub_r", "mul_r", "div_r", "mul_add_r", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down",
    "to_i128_r", "to_u128_r", "from_i128_r", "from_u128_r", "from_str_r", "format", "scalbn_r", "ilogb, frexp_r", "comparisons",
    "queries", "get_exact_inverse", "NaN factories", "constants", "sign operations", "convert_r", "operators",
];
pub const FMTS: usize = 13;

/// A request.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Req {
    pub op: u8,
    pub fmt: u8,
    pub mode: u8,
    pub aux: u16,
    pub aux2: u16,
    pub args: [u128; 3],
    pub text: String,
}
impl Req {
    pub fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&[self.op, self.fmt, self.mode]);
        o.extend_from_slice(&self.aux.to_le_bytes());
        o.extend_from_slice(&self.aux2.to_le_bytes());
        for a in self.args {
            o.extend_from_slice(&a.to_le_bytes());
        }
        o.extend_from_slice(&(self.text.len() as u32).to_le_bytes());
        o.extend_from_slice(self.text.as_bytes());
    }
    pub fn get(b: &mut &[u8]) -> Option<Req> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if b.len() < n {
                return None;
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Some(x)
        }
        let h = take(b, 7)?;
        let mut r = Req { op: h[0], fmt: h[1], mode: h[2], aux: u16::from_le_bytes([h[3], h[4]]), aux2: u16::from_le_bytes([h[5], h[6]]), ..Req::default() };
        for a in &mut r.args {
            *a = u128::from_le_bytes(take(b, 16)?.try_into().ok()?);
        }
        let n = u32::from_le_bytes(take(b, 4)?.try_into().ok()?);
        r.text = std::str::from_utf8(take(b, n as usize)?).ok()?.to_string();
        Some(r)
    }
}
/// An answer: numbers, then text.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ans(pub Vec<u128>, pub String);
impl Ans {
    pub fn put(&self, o: &mut Vec<u8>) {
        o.push(self.0.len() as u8);
        for a in &self.0 {
            o.extend_from_slice(&a.to_le_bytes());
        }
        o.extend_from_slice(&(self.1.len() as u32).to_le_bytes());
        o.extend_from_slice(self.1.as_bytes());
    }
    pub fn get(b: &mut &[u8]) -> Option<Ans> {
        let n = *b.first()? as usize;
        if b.len() < 1 + 16 * n + 4 {
            return None;
        }
        let v = b[1..1 + 16 * n].chunks(16).map(|c| u128::from_le_bytes(c.try_into().unwrap())).collect();
        *b = &b[1 + 16 * n..];
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        let t = String::from_utf8(b.get(4..4 + n)?.to_vec()).ok()?;
        *b = &b[4 + n..];
        Some(Ans(v, t))
    }
    fn v<T: Float>(&mut self, x: StatusAnd<T>) -> &mut Self {
        self.n(x.value.to_bits()).n(x.status.bits() as u128)
    }
    fn f<T: Float>(&mut self, x: T) -> &mut Self {
        self.n(x.to_bits())
    }
    fn n(&mut self, x: u128) -> &mut Self {
        self.0.push(x);
        self
    }
    fn b(&mut self, x: bool) -> &mut Self {
        self.n(x as u128)
    }
}

fn round(m: u8) -> Round {
    [Round::NearestTiesToEven, Round::TowardPositive, Round::TowardNegative, Round::TowardZero, Round::NearestTiesToAway][m as usize % 5]
}

fn one<T: Float>(r: &Req) -> Ans {
    let (a, b, c) = (T::from_bits(r.args[0]), T::from_bits(r.args[1]), T::from_bits(r.args[2]));
    let m = round(r.mode);
    let mut o = Ans::default();
    match r.op {
        0 => { o.v(a.add_r(b, m)); }
        1 => { o.v(a.sub_r(b, m)); }
        2 => { o.v(a.mul_r(b, m)); }
        3 => { o.v(a.div_r(b, m)); }
        4 => { o.v(a.mul_add_r(b, c, m)); }
        5 => { o.v(a.c_fmod(b)); }
        6 => { o.v(a.ieee_rem(b)); }
        7 => { o.v(a.round_to_integral(m)).b(a.is_integer()); }
        8 => { o.v(a.next_up()); }
        9 => { o.v(a.next_down()); }
        10 => {
            let mut e = false;
            let x = a.to_i128_r(r.aux as usize, m, &mut e);
            o.n(x.value as u128).n(x.status.bits() as u128).b(e);
        }
        11 => {
            let mut e = false;
            let x = a.to_u128_r(r.aux as usize, m, &mut e);
            o.n(x.value).n(x.status.bits() as u128).b(e);
        }
        12 => { o.v(T::from_i128_r(r.args[0] as i128, m)); }
        13 => { o.v(T::from_u128_r(r.args[0], m)); }
        14 => match T::from_str_r(&r.text, m) {
            Ok(x) => { o.v(x); }
            Err(e) => { o.n(99); let _ = write!(o.1, "{:?}", e); }
        },
        15 => {
            let _ = match r.mode {
                0 => write!(o.1, "{}", a),
                1 => write!(o.1, "{:#}", a),
                2 => write!(o.1, "{:.*}", r.aux as usize, a),
                3 => write!(o.1, "{:1$}", a, r.aux as usize),
                _ => write!(o.1, "{:1$.2$}", a, r.aux as usize, r.aux2 as usize),
            };
        }
        16 => { o.f(a.scalbn_r(r.args[1] as i32, m)); }
        17 => {
            let mut e = 0;
            let x = a.frexp_r(&mut e, m);
            o.f(x).n(e as u128).n(a.ilogb() as u128);
        }
        18 => {
            o.n(a.partial_cmp(&b).map_or(9, |x| x as i8 as u128)).b(a == b).b(a < b).b(a.bitwise_eq(b));
            o.f(a.min(b)).f(a.max(b)).f(a.minimum(b)).f(a.maximum(b));
            if a.is_finite_non_zero() && b.is_finite_non_zero() {
                o.n(a.cmp_abs_normal(b) as i8 as u128);
            }
        }
        19 => {
            let q = [a.is_negative(), a.is_normal(), a.is_finite(), a.is_zero(), a.is_denormal(), a.is_infinite(), a.is_nan(), a.is_signaling(),
                a.is_non_zero(), a.is_finite_non_zero(), a.is_pos_zero(), a.is_neg_zero(), a.is_pos_infinity(), a.is_neg_infinity(),
                a.is_smallest(), a.is_smallest_normalized(), a.is_largest(), a.is_integer()];
            o.n(q.iter().fold(0, |x, &y| x << 1 | y as u128));
            o.n(match a.category() { Category::Infinity => 0, Category::NaN => 1, Category::Normal => 2, Category::Zero => 3 });
            o.f(a);
        }
        20 => match a.get_exact_inverse() {
            Some(x) => { o.f(x); }
            None => { o.n(7).n(7); }
        },
        21 => { o.f(T::qnan(Some(r.args[0]))).f(T::snan(Some(r.args[0]))).f(T::qnan(None)).f(T::snan(None)); }
        22 => {
            o.n(T::BITS as u128).n(T::PRECISION as u128).n(T::MAX_EXP as u128).n(T::MIN_EXP as u128);
            o.f(T::ZERO).f(T::INFINITY).f(T::NAN).f(T::largest()).f(T::SMALLEST).f(T::smallest_normalized()).f(T::default());
        }
        23 => { o.f(-a).f(a.abs()).f(a.copy_sign(b)); }
        25 => {
            o.v(a + b).v(a - b).v(a * b).v(a / b).v(a.mul_add(b, c)).f(a.scalbn(r.args[1] as i32 % 300));
            let (mut x, mut y) = (a, a);
            x += b;
            y *= b;
            o.f(x).f(y);
        }
        _ => { o.n(98); }
    }
    o
}

macro_rules! each {
    ($i:expr, $T:ident => $b:expr, $dd:expr) => {
        match $i {
            0 => { type $T = ieee::Half; $b }
            1 => { type $T = ieee::Single; $b }
            2 => { type $T = ieee::Double; $b }
            3 => { type $T = ieee::Quad; $b }
            4 => { type $T = ieee::BFloat; $b }
            5 => { type $T = ieee::Float8E5M2; $b }
            6 => { type $T = ieee::Float8E4M3FN; $b }
            7 => { type $T = ieee::X87DoubleExtended; $b }
            9 => { type $T = IeeeFloat<P70>; $b }
            10 => { type $T = IeeeFloat<P128>; $b }
            11 => { type $T = IeeeFloat<P6>; $b }
            12 => { type $T = IeeeFloat<P9>; $b }
            _ => $dd,
        }
    };
}
fn conv<A: Float, B: Float>(r: &Req) -> Ans
where
    A: FloatConvert<B>,
{
    let mut l = false;
    let x: StatusAnd<B> = A::from_bits(r.args[0]).convert_r(round(r.mode), &mut l);
    let mut o = Ans::default();
    o.v(x).b(l);
    o
}
/// The answer of the library on this machine.
pub fn exec(r: &Req) -> Ans {
    if r.op == 24 {
        return match r.aux % 4 {
            0 => each!(r.fmt, T => conv::<T, ieee::Double>(r), Ans::default()),
            1 => each!(r.fmt, T => conv::<T, ieee::Half>(r), Ans::default()),
            2 => each!(r.fmt, T => conv::<T, ieee::X87DoubleExtended>(r), Ans::default()),
            _ => each!(r.fmt, T => conv::<T, ieee::Quad>(r), Ans::default()),
        };
    }
    each!(r.fmt, T => one::<T>(r), one::<DoubleDouble>(r))
}
