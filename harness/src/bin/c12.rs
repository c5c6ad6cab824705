//! C12: hexadecimal strings parse to the correctly rounded value.
use mon::big::Big;
use mon::fp::*;
use mon::model::{self, Cls, Ex};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, s: &str, neg: bool, m: &Big, e: i64, sticky: bool, modes: &[u8]) {
    let f = T::FMT;
    ctx.text(s);
    let key = hash_str(s);
    for &mode in modes {
        let want = if m.is_zero() && !sticky {
            model::Out::new(model::V::Zero(neg), 0, Cls::ZeroExact)
        } else {
            model::finish(&f, &Ex::Real { neg, m: m.clone(), e, sticky }, mode)
        };
        let wb = (model::encode(&f, &want.v), want.st);
        let c = case("from_str_r", f.name, mode, &[]);
        let Some(got) = ctx.sut(&c, || T::from_str_r(s, rm(mode)).map(sv)) else { continue };
        ctx.seen(0, f.id, mode, want.cls, nontriv(want.cls), key);
        ctx.sample(|| format!("{} {:?} -> {:x?}", c.describe(), s, got));
        if got != Ok(wb) {
            let g = match got {
                Ok(g) => format!("{:#x} {}", g.0, st_name(g.1)),
                Err(e) => format!("error {:?}", e),
            };
            ctx.fail(&c, &format!("got {}, expected {:#x} {} (class {})", g, wb.0, st_name(wb.1), model::CLS_NAMES[want.cls as usize]));
        }
    }
}

/// Spell hex digits * 16^0 * 2^e, with point, padding and exponent style chosen at random.
fn spell(ctx: &mut Ctx, neg: bool, digits: &str, e: i64) -> String {
    let r = &mut ctx.rng;
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if r.chance(1, 4) {
        s.push('+');
    }
    s.push_str(if r.bool() { "0x" } else { "0X" });
    let lead = if r.chance(1, 3) { r.below(8) as usize } else if r.chance(1, 20) { r.below(400) as usize } else { 0 };
    let trail = if r.chance(1, 3) { r.below(8) as usize } else if r.chance(1, 20) { r.below(400) as usize } else { 0 };
    let mut all = format!("{}{}{}", "0".repeat(lead), digits, "0".repeat(trail));
    if r.bool() {
        all = all.to_uppercase();
    }
    let n = all.len() as i64;
    let mut x = e - 4 * trail as i64;
    match r.below(5) {
        0 => s.push_str(&all),
        1 => {
            s.push_str(&all);
            s.push('.');
        }
        2 => {
            s.push('.');
            s.push_str(&all);
            x += 4 * n;
        }
        _ => {
            let p = if r.bool() { r.range(0, n) } else { (lead as i64 + r.range(0, 1)).min(n) };
            s.push_str(&all[..p as usize]);
            s.push('.');
            s.push_str(&all[p as usize..]);
            x += 4 * (n - p);
        }
    }
    s.push(if r.bool() { 'p' } else { 'P' });
    if x < 0 {
        s.push('-');
    } else if r.bool() {
        s.push('+');
    }
    if r.chance(1, 6) {
        for _ in 0..r.below(30) {
            s.push('0');
        }
    }
    s.push_str(&x.abs().to_string());
    s
}

fn hexdigits(m: &Big) -> String {
    let mut v = vec![];
    let n = (m.bits() + 3) / 4;
    for i in (0..n).rev() {
        v.push(b"0123456789abcdef"[m.shr(4 * i).to_low4()]);
    }
    String::from_utf8(v).unwrap()
}
trait Low4 {
    fn to_low4(&self) -> usize;
}
impl Low4 for Big {
    fn to_low4(&self) -> usize {
        (0..4).map(|i| (self.bit(i) as usize) << i).sum()
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 16 {
            // every value, and every point at eighths between neighbours
            for b in k as u128 * 16..(k as u128 + 1) * 16 {
                let model::V::Fin { neg, m, e } = model::decode(&f, b) else { continue };
                let (s, q) = model::canon(&f, &m, e);
                for t in 0..8u128 {
                    let m = Big::from_u128(8 * s + t);
                    let txt = spell(ctx, neg, &hexdigits(&m), q - 3);
                    one::<T>(ctx, &txt, neg, &m, q - 3, false, &model::MODES);
                }
            }
            ctx.note("exhaustive_8bit_values", 16);
            return;
        }
        for i in 0..300 {
            let neg = ctx.rng.bool();
            let r = &mut ctx.rng;
            // a significand of the format with `t` extra bits, last place exponent q
            let (s, q) = match r.below(7) {
                6 => ((1u128 << f.p) - 1, f.qmin() - 1 - r.range(0, 1)),
                0 => (f.max_sig(), f.emax - f.p + 1),
                1 => (1u128 << (f.p - 1) | r.below(2) as u128, f.emin - f.p + 1 - r.range(0, 3)),
                2 => (r.below(8) as u128, f.qmin()),
                _ => {
                    let b = gen::finite(r, &f);
                    match model::decode(&f, b) {
                        model::V::Fin { m, e, .. } => {
                            let (s, q) = model::canon(&f, &m, e);
                            (s, q)
                        }
                        _ => (1, 0),
                    }
                }
            };
            let t = r.range(0, 9);
            let extra = match r.below(6) {
                0 => 0u128,
                1 if t > 0 => 1 << (t - 1),
                2 if t > 0 => (1 << (t - 1)) + 1,
                3 if t > 0 => (1 << (t - 1)) - 1,
                4 => (1 << t) - 1,
                _ => r.u128() & ((1 << t) - 1),
            };
            let mut m = Big::from_u128(s).shl(t).add(&Big::from_u128(extra));
            let mut e = q - t;
            let mut sticky_digits = 0usize;
            match i % 6 {
                0 | 1 => {}
                2 => {
                    // long tail of zeros then something
                    let n = [1i64, 3, 17, 64, 120, 128, 133, 300, 2000][r.below(9) as usize] + r.range(0, 4);
                    let d = [1u128, 8, 7, 15, 9][r.below(5) as usize];
                    m = m.shl(n).add(&Big::from_u128(d.min((1u128 << n.min(100)) - 1)));
                    e -= n;
                }
                3 => {
                    // a long random or all-ones tail
                    let n = 8 * (1 + r.range(0, 40));
                    for _ in 0..n / 8 {
                        let b = if i % 4 == 3 { 255 } else { r.below(256) as u128 };
                        m = m.shl(8).add(&Big::from_u128(b));
                    }
                    e -= n;
                }
                4 => {
                    // absurd exponents and shifts
                    let big = [1 << 31, (1i64 << 31) - 1, 1 << 32, i64::MAX / 4, 70000, 20000, 5000, 2000, 600, 300][r.below(10) as usize];
                    e = e.saturating_add(if r.bool() { big } else { -big }).saturating_add(r.range(-3, 3));
                    ctx.note("absurd", 1);
                }
                _ => {
                    // a few random digits with any exponent
                    let r = &mut ctx.rng;
                    m = Big::from_u128(r.u128() >> r.below(128));
                    e = r.range(f.qmin() - 200, f.emax + 20);
                    // and a very long run of digits beyond anything kept
                    if r.chance(1, 30) {
                        sticky_digits = 1 + r.below(5000) as usize;
                    }
                }
            }
            if ctx.rng.chance(1, 60) {
                m = Big::zero();
            }
            let mut digits = if m.is_zero() { "0".to_string() } else { hexdigits(&m) };
            let (mut m2, mut e2) = (m, e);
            let mut x = e;
            if sticky_digits > 0 {
                digits = format!("{}{}1", digits, "0".repeat(sticky_digits));
                x -= 4 * (sticky_digits as i64 + 1);
                m2 = m2.shl(4 * (sticky_digits as i64 + 1)).add(&Big::one());
                e2 = x;
            }
            let s = spell(ctx, neg, &digits, x);
            // far out of range any value rounds alike: keep the oracle's numbers small
            let top = m2.bits() + e2;
            let (m3, e3, st) = if m2.is_zero() {
                (m2, 0, false)
            } else if top > f.emax + 50 {
                (Big::one(), f.emax + 100, false)
            } else if top < f.qmin() - 50 {
                (Big::one(), f.qmin() - 100, true)
            } else {
                (m2, e2, false)
            };
            one::<T>(ctx, &s, neg, &m3, e3, st, &model::MODES);
        }
    })
}

fn before(ctx: &mut Ctx) {
    // exponents that exactly cancel a very long run of zeros
    let n = 1_000_000usize;
    let s = format!("0x1{}p-{}", "0".repeat(n), 4 * n);
    one::<ieee::Double>(ctx, &s, false, &Big::one(), 0, false, &model::MODES);
    let s = format!("-0x.{}1p+{}", "0".repeat(n), 4 * n);
    one::<ieee::Single>(ctx, &s, true, &Big::one(), -4, false, &model::MODES);
    let s = format!("0x1.{}1p0", "0".repeat(n));
    let m = Big::pow2(1000);
    one::<ieee::Quad>(ctx, &s, false, &m, -1000, true, &model::MODES);
    ctx.note("million_digit_inputs", 3);
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, RoundUp, RoundDown, Tie, Carry, SubExact, SubInexact, SubToNormal, ToZero, OvfInf, OvfMax, ZeroExact]);
    t.need_note(&mut v, "exhaustive_8bit_values", 512);
    t.need_note(&mut v, "absurd", 1000);
    v
}

fn main() {
    run("C12", Spec {
        ops: &["from_str_r"],
        rule: "an event is one hexadecimal string parsed in one mode, bits and status compared; strings are format significands with up to 9 extra bits (half, just above/below half), long zero/one/random tails, range edges, absurd exponents and zero runs, point and padding anywhere; all values in eighths for the 8-bit formats; non-trivial = finite non-zero result computed",
        quick: 8 * 4800,
        thorough: 8 * 300000,
        chunk,
        gate,
        before,
    })
}
