//! C11: decimal strings parse to the correctly rounded value.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

/// Parse `s` in the given modes and compare with the exact decimal `neg digits * 10^exp`.
fn one<T: Fp>(ctx: &mut Ctx, s: &str, neg: bool, d: &[u8], exp: i64, modes: &[u8]) {
    let f = T::FMT;
    let x = model::exact_decimal(&f, neg, d, exp);
    ctx.text(s);
    let key = hash_str(s);
    for &mode in modes {
        let want = model::finish(&f, &x, mode);
        let wb = (model::encode(&f, &want.v), want.st);
        let c = case("from_str_r", f.name, mode, &[]);
        let Some(got) = ctx.sut(&c, || T::from_str_r(s, rm(mode)).map(sv)) else { continue };
        ctx.seen(0, f.id, mode, want.cls, nontriv(want.cls), key);
        ctx.sample(|| format!("{} {:?} -> {:x?}", c.describe(), s, got));
        if got != Ok(wb) {
            let g = match got {
                Ok(g) => format!("{:#x} {}", g.0, st_name(g.1)),
                Err(e) => format!("error {:?}", e),
            };
            ctx.fail(&c, &format!("got {}, expected {:#x} {} (class {})", g, wb.0, st_name(wb.1), model::CLS_NAMES[want.cls as usize]));
        }
    }
    if ctx.rng.chance(1, 4) {
        // the FromStr spelling: nearest-even, status dropped
        let want = model::encode(&f, &model::finish(&f, &x, 0).v);
        let c = case("from_str", f.name, NOMODE, &[]);
        if let Some(got) = ctx.sut(&c, || s.parse::<T>().map(|v| v.to_bits())) {
            ctx.seen(1, f.id, NOMODE, Cls::Special, false, key);
            if got != Ok(want) {
                ctx.fail(&c, &format!("got {:x?}, expected {:#x}", got, want));
            }
        }
    }
}

fn absurd(ctx: &mut Ctx) -> (Vec<u8>, i64, String) {
    // exponents and zero runs far outside any range, possibly cancelling each other
    let r = &mut ctx.rng;
    let n = 1 + r.below(5);
    let d: Vec<u8> = (0..n).map(|i| b'0' + if i == 0 { 1 + r.below(9) as u8 } else { r.below(10) as u8 }).collect();
    let ds = String::from_utf8(d.clone()).unwrap();
    match r.below(7) {
        0 => {
            let z = r.below(9000) as i64;
            let e = z + r.range(-60, 60);
            // 0.000ddd e+e
            (d, e - z - n as i64, format!("0.{}{}e{}", "0".repeat(z as usize), ds, e))
        }
        1 => {
            let z = r.below(9000) as i64;
            let e = -z + r.range(-60, 60);
            (d, e + z, format!("{}{}e{}", ds, "0".repeat(z as usize), e))
        }
        2 => {
            let big = ["2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775808", "18446744073709551616",
                "99999999999999999999999999999999999999999999", "32767", "65536", "51085", "102169", "715827882", "536870912"];
            let e = *r.pick(&big);
            let neg = r.bool();
            (d, if neg { -1 << 40 } else { 1 << 40 }, String::new()).clone_with(ds, neg, e)
        }
        3 => {
            let e = r.range(-70000, 70000);
            (d, e, format!("{}e{}", ds, e))
        }
        4 => {
            let e = r.range(-i32::MAX as i64 - 3, i32::MAX as i64 + 3);
            (d, e, format!("{}E{:+}", ds, e))
        }
        5 => {
            let e = r.range(-6, 6) + [-2147483648i64, 2147483647][r.below(2) as usize];
            let z = r.below(40) as usize;
            if r.bool() {
                (d, e - z as i64 - n as i64, format!(".{}{}e{}", "0".repeat(z), ds, e))
            } else {
                (d, e + z as i64, format!("{}{}e{}", ds, "0".repeat(z), e))
            }
        }
        _ => {
            // exponent spelled with many leading zeros
            let e = r.range(-400, 400);
            let z = r.below(300) as usize;
            (d, e, format!("{}e{}{}{}", ds, if e < 0 { "-" } else { "+" }, "0".repeat(z), e.abs()))
        }
    }
}
trait CloneWith {
    fn clone_with(self, ds: String, neg: bool, e: &str) -> (Vec<u8>, i64, String);
}
impl CloneWith for (Vec<u8>, i64, String) {
    fn clone_with(self, ds: String, neg: bool, e: &str) -> (Vec<u8>, i64, String) {
        let x = e.parse::<i64>().unwrap_or(1 << 40).min(1 << 40);
        (self.0, if neg { -x } else { x }, format!("{}e{}{}", ds, if neg { "-" } else { "" }, e))
    }
}

/// Chunks per format that sweep instead of sampling.
const SWEEP: u64 = 64;

/// Every decimal exponent that can matter with one or two digits, and around 10^0 every
/// combination of exponent and number of digits; the exponents are dealt out to the chunks.
fn sweep<T: Fp>(ctx: &mut Ctx, k: u64) {
    let f = T::FMT;
    let lo = f.qmin() * 302 / 1000 - 4;
    let hi = (f.emax * 302 / 1000 + 4) as i64;
    let wide = f.emax > 5000;
    for x in (lo..=hi).filter(|x| x.rem_euclid(SWEEP as i64) == k as i64) {
        for d1 in 1..=9u8 {
            if wide && !ctx.thorough && (d1 as i64 + x / SWEEP as i64) % 4 != 0 && x.abs() > 400 {
                continue;
            }
            let mut d = vec![b'0' + d1];
            for two in [false, true] {
                if two {
                    if wide && !ctx.thorough && x.abs() > 400 {
                        continue;
                    }
                    d.push(b'0' + ctx.rng.below(10) as u8);
                }
                let neg = ctx.rng.bool();
                let e = x - two as i64;
                let s = if ctx.rng.bool() {
                    format!("{}{}e{}", if neg { "-" } else { "" }, std::str::from_utf8(&d).unwrap(), e)
                } else {
                    gen::spell_decimal(&mut ctx.rng, neg, &d, e)
                };
                let m = 1 + ctx.rng.below(4) as u8;
                one::<T>(ctx, &s, neg, &d, e, &[0, m]);
            }
        }
        ctx.note("swept_exponents", 1);
    }
    for x in (-60i64..=60).filter(|x| x.rem_euclid(SWEEP as i64) == k as i64) {
        for nd in 1..=if wide { 45 } else { 60 } {
            let mut d: Vec<u8> = (0..nd).map(|_| b'0' + ctx.rng.below(10) as u8).collect();
            d[0] = b'1' + ctx.rng.below(9) as u8;
            *d.last_mut().unwrap() = b'1' + ctx.rng.below(9) as u8;
            let neg = ctx.rng.bool();
            let s = gen::spell_decimal(&mut ctx.rng, neg, &d, x);
            let m = 1 + ctx.rng.below(4) as u8;
            one::<T>(ctx, &s, neg, &d, x, &[0, m]);
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if (16..16 + SWEEP).contains(&k) {
            return sweep::<T>(ctx, k - 16);
        }
        if k < 16 && f.bits == 8 {
            // every finite value and every midpoint, exactly and one digit off either way, 16 chunks
            for b in (k as u128 * 16)..(k as u128 + 1) * 16 {
                let model::V::Fin { neg, m, e } = model::decode(&f, b) else { continue };
                let (s, q) = model::canon(&f, &m, e);
                for (m, q) in [(s, q), (2 * s + 1, q - 1), (4 * s + 1, q - 2), (4 * s + 3, q - 2)] {
                    let (d, x) = model::to_decimal(&mon::big::Big::from_u128(m), q);
                    for w in 0..3 {
                        let (mut d, mut x) = (d.clone(), x);
                        match w {
                            1 => { d.extend(b"00001"); x -= 5; }
                            2 => { *d.last_mut().unwrap() -= 1; d.extend(b"99999"); x -= 5; }
                            _ => {}
                        }
                        let t = format!("{}{}e{}", if neg { "-" } else { "" }, std::str::from_utf8(&d).unwrap(), x);
                        one::<T>(ctx, &t, neg, &d, x, &model::MODES);
                    }
                }
            }
            ctx.note("exhaustive_8bit_values", 16);
            return;
        }
        let n = if f.p > 60 { 16 } else { 40 };
        for i in 0..n {
            let neg = ctx.rng.bool();
            match i % 8 {
                0 => {
                    // short decimals over the whole exponent range
                    let r = &mut ctx.rng;
                    let nd = 1 + r.below(20);
                    let d: Vec<u8> = (0..nd).map(|_| b'0' + r.below(10) as u8).collect();
                    let lim = (f.emax * 31 / 100 + 30) as i64;
                    let lo = f.qmin() * 31 / 100 - 30;
                    let (lo, hi) = if r.bool() { (lo, lim) } else { (-30.max(lo), 30.min(lim)) };
                    let x = r.range(lo.min(hi), hi) - if r.bool() { nd as i64 } else { 0 };
                    let s = gen::spell_decimal(r, neg, &d, x);
                    one::<T>(ctx, &s, neg, &d, x, &model::MODES);
                }
                1 => {
                    let (d, x, s) = absurd(ctx);
                    let s = if neg { format!("-{}", s) } else { s };
                    one::<T>(ctx, &s, neg, &d, x, &model::MODES);
                    ctx.note("absurd", 1);
                }
                2 if ctx.rng.chance(1, 2) => {
                    // zeros with any exponent
                    let z = 1 + ctx.rng.below(40) as usize;
                    let d = vec![b'0'; z];
                    let e = [0i64, 5, -5, 999999, -999999, 1 << 33, -(1 << 33)][ctx.rng.below(7) as usize];
                    let s = gen::spell_decimal(&mut ctx.rng, neg, &d, e);
                    one::<T>(ctx, &s, neg, &d, e, &model::MODES);
                }
                3 => {
                    // around the overflow threshold and the smallest subnormal
                    let r = &mut ctx.rng;
                    let (m, q) = if r.chance(1, 4) {
                        // around the smallest normal
                        let b = mon::big::Big::pow2(f.p + 2);
                        let d = mon::big::Big::from_u128(r.below(10) as u128);
                        (if r.chance(3, 4) { b.sub(&d) } else { b.add(&d) }, f.qmin() - 3)
                    } else if r.bool() {
                        (mon::big::Big::from_u128(f.max_sig()).shl(2).add(&mon::big::Big::from_u128(r.below(9) as u128)), f.emax - f.p + 1 - 2)
                    } else {
                        (mon::big::Big::from_u128(1 + r.below(12) as u128), f.qmin() - 3)
                    };
                    if f.emax > 5000 && r.chance(3, 4) {
                        continue;
                    }
                    let (mut d, mut x) = model::to_decimal(&m, q);
                    gen::perturb_decimal(r, &mut d, &mut x);
                    let s = gen::spell_decimal(r, neg, &d, x);
                    one::<T>(ctx, &s, neg, &d, x, &model::MODES);
                    ctx.note("range_edges", 1);
                }
                4 if ctx.rng.chance(1, 3) => {
                    // very many digits
                    let r = &mut ctx.rng;
                    let nd = 100 + r.below(if ctx.thorough { 20000 } else { 2500 });
                    let pat = r.below(4);
                    let d: Vec<u8> = (0..nd).map(|j| match pat {
                        0 => b'0' + r.below(10) as u8,
                        1 => b'9',
                        2 => if j == 0 || j == nd - 1 { b'1' } else { b'0' },
                        _ => if r.chance(1, 50) { b'0' + r.below(10) as u8 } else { b'0' },
                    }).collect();
                    let x = -(nd as i64) + r.range(-20, 20);
                    let s = gen::spell_decimal(r, neg, &d, x);
                    one::<T>(ctx, &s, neg, &d, x, &model::MODES);
                    ctx.note("hundreds_of_digits", 1);
                }
                _ => {
                    let (mut d, mut x) = gen::boundary_decimal(&mut ctx.rng, &f);
                    gen::perturb_decimal(&mut ctx.rng, &mut d, &mut x);
                    let s = gen::spell_decimal(&mut ctx.rng, neg, &d, x);
                    one::<T>(ctx, &s, neg, &d, x, &model::MODES);
                }
            }
        }
    })
}

/// Long inputs once per run: a million digits must still be read exactly.
fn before(ctx: &mut Ctx) {
    let n = if ctx.thorough { 300_000 } else { 20_000 };
    let mut s = String::from("1.");
    s.push_str(&"0".repeat(n));
    s.push('1');
    let mut d = vec![b'1'];
    d.extend(std::iter::repeat(b'0').take(n));
    d.push(b'1');
    one::<ieee::Double>(ctx, &s, false, &d, -(n as i64) - 1, &[0, 1]);
    // integral, with the exponent cancelling a million trailing zeros
    let n = 1_000_000;
    let s = format!("25{}e-{}", "0".repeat(n), n);
    one::<ieee::Single>(ctx, &s, false, b"25", 0, &[0, 3]);
    let s = format!("0.{}25e{}", "0".repeat(n), n);
    one::<ieee::Quad>(ctx, &s, false, b"25", -2, &[0, 3]);
    ctx.note("million_digit_inputs", 2);
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, RoundUp, RoundDown, Tie, SubExact, SubInexact, ToZero, OvfInf, OvfMax, ZeroExact]);
    t.need(&mut v, &[0], &[0, 1, 2, 4, 5, 6, 7], &[Carry, SubToNormal]);
    t.need_note(&mut v, "exhaustive_8bit_values", 512);
    t.need_note(&mut v, "hundreds_of_digits", 50);
    t.need_note(&mut v, "range_edges", 100);
    t.need_note(&mut v, "swept_exponents", 20000);
    v
}

fn main() {
    run("C11", Spec {
        ops: &["from_str_r", "from_str"],
        rule: "an event is one decimal string parsed in one rounding mode, bits and status compared with the exactly rounded decimal; strings are exact values, midpoints and quarter points of the format (every one for the 8-bit formats), the same one far-out digit above or below, range edges, short decimals over the whole range (every exponent with one or two digits, every digit count near 10^0), hundreds to thousands of digits, absurd exponents and zero runs, in many spellings; non-trivial = a finite non-zero value had to be rounded",
        quick: 8 * (960 + SWEEP),
        thorough: 8 * 20000,
        chunk,
        gate,
        before,
    })
}
