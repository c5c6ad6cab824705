//! C23: format constants, extremes and NaN factories match the format definition.
//! The expected encodings below are written out from the published formats.
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::run::*;
use mon::{by_fmt, gen};

struct Pub {
    bits: usize,
    precision: usize,
    max_exp: i32,
    min_exp: i32,
    inf: u128,
    nan: u128,
    largest: u128,
    smallest: u128,
    smallest_norm: u128,
    one: u128,
}
// half, single, double, quad, bfloat, E5M2, E4M3FN, x87
const TABLE: [Pub; 8] = [
    Pub { bits: 16, precision: 11, max_exp: 15, min_exp: -14, inf: 0x7c00, nan: 0x7e00, largest: 0x7bff, smallest: 1, smallest_norm: 0x0400, one: 0x3c00 },
    Pub { bits: 32, precision: 24, max_exp: 127, min_exp: -126, inf: 0x7f80_0000, nan: 0x7fc0_0000, largest: 0x7f7f_ffff, smallest: 1, smallest_norm: 0x0080_0000, one: 0x3f80_0000 },
    Pub { bits: 64, precision: 53, max_exp: 1023, min_exp: -1022, inf: 0x7ff0_0000_0000_0000, nan: 0x7ff8_0000_0000_0000, largest: 0x7fef_ffff_ffff_ffff, smallest: 1, smallest_norm: 0x0010_0000_0000_0000, one: 0x3ff0_0000_0000_0000 },
    Pub {
        bits: 128, precision: 113, max_exp: 16383, min_exp: -16382, inf: 0x7fff_0000_0000_0000_0000_0000_0000_0000, nan: 0x7fff_8000_0000_0000_0000_0000_0000_0000,
        largest: 0x7ffe_ffff_ffff_ffff_ffff_ffff_ffff_ffff, smallest: 1, smallest_norm: 0x0001_0000_0000_0000_0000_0000_0000_0000, one: 0x3fff_0000_0000_0000_0000_0000_0000_0000,
    },
    Pub { bits: 16, precision: 8, max_exp: 127, min_exp: -126, inf: 0x7f80, nan: 0x7fc0, largest: 0x7f7f, smallest: 1, smallest_norm: 0x0080, one: 0x3f80 },
    Pub { bits: 8, precision: 3, max_exp: 15, min_exp: -14, inf: 0x7c, nan: 0x7e, largest: 0x7b, smallest: 1, smallest_norm: 0x04, one: 0x3c },
    Pub { bits: 8, precision: 4, max_exp: 8, min_exp: -6, inf: 0x7f, nan: 0x7f, largest: 0x7e, smallest: 1, smallest_norm: 0x08, one: 0x38 },
    Pub {
        bits: 80, precision: 64, max_exp: 16383, min_exp: -16382, inf: 0x7fff_8000_0000_0000_0000, nan: 0x7fff_c000_0000_0000_0000,
        largest: 0x7ffe_ffff_ffff_ffff_ffff, smallest: 1, smallest_norm: 0x0001_8000_0000_0000_0000, one: 0x3fff_8000_0000_0000_0000,
    },
];

fn constants<T: Fp>(ctx: &mut Ctx) {
    let f = T::FMT;
    let p = &TABLE[f.id as usize];
    let c = case("constants", f.name, NOMODE, &[]);
    macro_rules! chk {
        ($name:expr, $want:expr, $e:expr) => {{
            let c = case($name, f.name, NOMODE, &[]);
            ev_eq(ctx, 0, f.id, &c, Cls::Special, true, &$want, || $e);
        }};
    }
    chk!("BITS", p.bits, T::BITS);
    chk!("PRECISION", p.precision, T::PRECISION);
    chk!("MAX_EXP", p.max_exp, T::MAX_EXP);
    chk!("MIN_EXP", p.min_exp, T::MIN_EXP);
    chk!("ZERO", 0, T::ZERO.to_bits());
    chk!("INFINITY", p.inf, T::INFINITY.to_bits());
    chk!("NAN", p.nan, T::NAN.to_bits());
    chk!("largest", p.largest, T::largest().to_bits());
    chk!("SMALLEST", p.smallest, T::SMALLEST.to_bits());
    chk!("smallest_normalized", p.smallest_norm, T::smallest_normalized().to_bits());
    chk!("default", 0, T::default().to_bits());
    chk!("one", Ok((p.one, 0)), T::from_str_r("1.0", Round::NearestTiesToEven).map(sv));
    chk!("from_bits(one)", Some(std::cmp::Ordering::Equal), T::from_bits(p.one).partial_cmp(&T::from_u128(1).value));
    // The factories answer as values, too: classes, order, distance.
    chk!("classes", (true, false, false, f.nanonly, !f.nanonly, true, false, true), (
        T::ZERO.is_pos_zero(), T::ZERO.is_negative(), T::largest().is_negative(), T::INFINITY.is_nan(), T::INFINITY.is_pos_infinity(),
        T::NAN.is_nan(), T::NAN.is_signaling(), T::SMALLEST.is_denormal()));
    chk!("extremes", (true, true, true, true, true, true), (
        T::SMALLEST.is_smallest(), T::largest().is_largest(), T::smallest_normalized().is_smallest_normalized(),
        T::smallest_normalized().is_normal(), T::largest().is_normal(), T::smallest_normalized() < T::largest()));
    chk!("extreme exponents", (p.max_exp, p.min_exp, p.min_exp - (p.precision as i32 - 1)), (
        T::largest().ilogb(), T::smallest_normalized().ilogb(), T::SMALLEST.ilogb()));
    chk!("step beyond largest", p.inf, T::largest().next_up().value.to_bits());
    chk!("step below smallest", 0, T::SMALLEST.next_down().value.to_bits());
    chk!("step below smallest_normalized", true, T::smallest_normalized().next_down().value.is_denormal());
    ctx.note("constant tables", 1);
    let _ = c;
}

fn nans<T: Fp>(ctx: &mut Ctx, payload: Option<u128>) {
    let f = T::FMT;
    for (op, name, sig) in [(1, "qnan", false), (2, "snan", true)] {
        let want = model::make_nan(&f, sig, payload);
        let wb = model::encode(&f, &want);
        let c = case(name, f.name, NOMODE, &[payload.unwrap_or(0), payload.is_some() as u128]);
        let fits = payload.map_or(true, |p| p < 1 << (f.p - 2));
        let cls = match (payload, fits) {
            (None, _) => Cls::Special,
            (Some(0), _) => Cls::ZeroExact,
            (_, true) => Cls::Exact,
            _ => Cls::RoundDown,
        };
        let w = (wb, true, sig && !f.nanonly, false, wb);
        ev_eq(ctx, op, f.id, &c, cls, true, &w, || {
            let x = if sig { T::snan(payload) } else { T::qnan(payload) };
            (x.to_bits(), x.is_nan(), x.is_signaling(), x.is_negative(), T::from_bits(x.to_bits()).to_bits())
        });
        // independent statement of the same thing
        if let Some(p) = payload {
            if !f.nanonly {
                let field = wb & ((1u128 << (f.p - 1)) - 1);
                let q = 1u128 << (f.p - 2);
                assert!(wb >> (f.bits - 1) == 0 && field != 0 && (field & q != 0) != sig);
                if p & (q - 1) != 0 {
                    assert_eq!(field & (q - 1), p & (q - 1));
                }
            }
            if p & ((1u128 << (f.p - 1)) - 1) & !(1u128 << (f.p - 2)) == 0 && sig {
                ctx.note("empty signaling payloads", 1);
            }
        }
        if sig && model::decode(&f, wb) != want {
            ctx.note("oracle mismatch", 1);
        }
        let _ = V::Zero(false);
    }
}

fn before(ctx: &mut Ctx) {
    for id in 0..NB {
        by_fmt!(id, T => {
            constants::<T>(ctx);
            nans::<T>(ctx, None);
        })
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if k < 16 {
            // every payload of up to 16 bits
            for p in k as u128 * 4096..(k as u128 + 1) * 4096 {
                nans::<T>(ctx, Some(p));
            }
            return;
        }
        if k == 16 {
            for i in 0..128 {
                for d in [0u128, 1] {
                    nans::<T>(ctx, Some((1u128 << i).wrapping_sub(d)));
                    nans::<T>(ctx, Some(!0u128 << i | d));
                    for j in 0..i {
                        nans::<T>(ctx, Some(1u128 << i | 1 << j));
                    }
                }
            }
            return;
        }
        for i in 0..3000 {
            let r = &mut ctx.rng;
            let p = match i % 4 {
                0 => r.u128(),
                1 => gen::pattern(r, 128),
                2 => gen::pattern(r, f.p - 1),
                _ => {
                    // nothing but bits that do not fit, plus maybe the quiet bit
                    let hi = gen::pattern(r, 128 - f.p + 1) << (f.p - 1);
                    hi | if r.bool() { 1 << (f.p - 2) } else { 0 }
                }
            };
            nans::<T>(ctx, Some(p));
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    let mut v = vec![];
    t.need(&mut v, &[1, 2], &[0, 1, 2, 3, 4, 5, 6, 7], &[Cls::Special, Cls::ZeroExact, Cls::Exact, Cls::RoundDown]);
    t.need_note(&mut v, "constant tables", 8);
    t.need_note(&mut v, "empty signaling payloads", 100);
    if t.note("oracle mismatch") != 0 {
        v.push("the oracle's NaN table is inconsistent".into());
    }
    v
}

fn main() {
    run("C23", Spec {
        ops: &["constants", "qnan", "snan"],
        rule: "an event is one constant compared with the hand-written table of published encodings, or one NaN factory call (bits, kind, sign, re-encoding); all payloads below 2^16, all one- and two-bit payloads, payloads of only non-fitting bits, random; classes: exact = payload fits, inexact-down = truncated; every event is non-trivial",
        quick: 8 * 640,
        thorough: 8 * 4000,
        chunk,
        gate,
        before,
    })
}
