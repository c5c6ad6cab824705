//! C15: formatted digits are correctly rounded and laid out as requested.
use mon::big::Big;
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::run::*;
use mon::{by_fmt, gen};

pub fn render<T: std::fmt::Display>(x: &T, p: Option<usize>, w: Option<usize>, alt: bool) -> String {
    match (p, w, alt) {
        (None, None, false) => format!("{}", x),
        (None, None, true) => format!("{:#}", x),
        (None, Some(w), false) => format!("{:1$}", x, w),
        (None, Some(w), true) => format!("{:#1$}", x, w),
        (Some(p), None, false) => format!("{:.1$}", x, p),
        (Some(p), None, true) => format!("{:#.1$}", x, p),
        (Some(p), Some(w), false) => format!("{:1$.2$}", x, w, p),
        (Some(p), Some(w), true) => format!("{:#1$.2$}", x, w, p),
    }
}

fn one<T: Fp>(ctx: &mut Ctx, a: u128, p: Option<usize>, w: Option<usize>, alt: bool) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let enc = |o: Option<usize>| o.map_or(0, |x| x as u128 + 1);
    let c = case("display", f.name, NOMODE, &[a, enc(p), enc(w), alt as u128]);
    let want = model::display(&f, &va, p, w, alt);
    let cls = match &va {
        V::Nan { .. } => Cls::NanProp,
        V::Inf(_) => Cls::Inf,
        V::Zero(_) => Cls::ZeroExact,
        V::Fin { .. } => {
            if want.contains(['e', 'E']) {
                Cls::RoundUp
            } else if want.contains('.') {
                Cls::RoundDown
            } else {
                Cls::Exact
            }
        }
    };
    let Some(got) = ctx.sut(&c, || render(&lv::<T>(a), p, w, alt)) else { return };
    let op = match (p.is_some(), w.is_some()) {
        (false, false) => 0,
        (true, false) => 1,
        (false, true) => 2,
        _ => 3,
    };
    ctx.seen(op, f.id, alt as u8, cls, nontriv(cls), hash_args(9, &c.args));
    ctx.sample(|| format!("{} [precision {:?} width {:?} alternate {}] -> {:?}", c.describe(), p, w, alt, got));
    if got != want {
        ctx.fail(&c, &format!("precision {:?} width {:?} alternate {}: got {:?}, expected {:?}", p, w, alt, got, want));
    }
}

/// A value at or next to a decimal half-way point for some precision.
fn half_way(ctx: &mut Ctx, f: &model::Fmt) -> (u128, usize) {
    let r = &mut ctx.rng;
    let n = 1 + r.below(8);
    let k = r.range(0, 6);
    let d = match r.below(4) {
        0 => 10u128.pow(n as u32) - 1,
        1 => 10u128.pow(n as u32) / 2,
        _ => r.u128() % 10u128.pow(n as u32),
    };
    // (10 d + 5) * 10^j / 2^k is often exactly representable
    let m = Big::from_u128(d * 10 + 5);
    let m = if r.bool() { m.mul(&model::pow5(r.below(5))) } else { m };
    let e = if r.bool() { -k } else { r.range(-3, f.p) };
    let o = model::round_real(f, r.bool(), &m, e, false, *r.pick(&model::MODES));
    let b = model::encode(f, &o.v);
    (if r.chance(2, 3) { b } else { gen::nudge(r, f, b, 1) }, n as usize)
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 32 {
            // every value, every precision 0..12 and none, widths 0..8 and none
            for a in k as u128 * 8..k as u128 * 8 + 8 {
                for p in 0..14usize {
                    for w in 0..10usize {
                        for alt in [false, true] {
                            one::<T>(ctx, a, p.checked_sub(1), w.checked_sub(1), alt);
                        }
                    }
                }
            }
            ctx.note("exhaustive_8bit_blocks", 1);
            return;
        }
        let n = if f.p > 60 { 60 } else { 250 };
        for i in 0..n {
            let (mut a, mut hint) = match ctx.rng.below(5) {
                0 => (gen::any(&mut ctx.rng, &f), 0),
                1 => (gen::integral_arg(&mut ctx.rng, &f), 0),
                2 | 3 => half_way(ctx, &f),
                _ => (gen::finite(&mut ctx.rng, &f), 0),
            };
            let r = &mut ctx.rng;
            if f.emax > 5000 && hint == 0 && r.chance(9, 10) {
                let lim = if r.bool() { 60 } else { 700 };
                a = gen::finite_in(r, &f, -lim, lim);
            }
            if hint == 0 {
                hint = 1 + r.below(8) as usize;
            }
            let natural = 2 + f.p as usize * 59 / 196;
            let p = match r.below(8) {
                0 => None,
                1 => Some(0),
                2 | 3 => Some(hint),
                4 => Some(natural + r.below(3) as usize - 1),
                5 => Some(1 + r.below(40) as usize),
                6 => Some(1 + r.below(natural as u64) as usize),
                _ => Some(if r.chance(1, 20) { 1 + r.below(3000) as usize } else { 1 + r.below(150) as usize }),
            };
            let w = match r.below(5) {
                0 | 1 => None,
                2 => Some(r.below(4) as usize),
                3 => Some(r.below(60) as usize),
                _ => Some(r.below(600) as usize),
            };
            one::<T>(ctx, a, p, w, i & 1 == 0);
        }
    })
}

fn before(ctx: &mut Ctx) {
    for id in 0..NB {
        by_fmt!(id, T => {
            for a in gen::specials(&T::FMT) {
                if T::FMT.emax > 5000 && model::decode(&T::FMT, a).is_fin() && ctx.rng.chance(3, 4) {
                    continue;
                }
                for (p, w) in [(None, None), (Some(3), None), (None, Some(0)), (Some(4), Some(0)), (Some(2), Some(9)), (Some(0), Some(0)), (Some(1), Some(0))] {
                    for alt in [false, true] {
                        one::<T>(ctx, a, p, w, alt);
                    }
                }
            }
        })
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    // class names here: exact = plain integer text, inexact-down = positional with point, inexact-up = scientific
    t.need(&mut v, &[0, 1, 2, 3], &all, &[Exact, RoundDown, ZeroExact, NanProp]);
    // (the default layout of the E4M3 format is never scientific)
    t.need(&mut v, &[0], &[0, 1, 2, 3, 4, 5, 7], &[RoundUp]);
    t.need(&mut v, &[1, 2, 3], &all, &[RoundUp]);
    t.need(&mut v, &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need_note(&mut v, "exhaustive_8bit_blocks", 2 * 32);
    v
}

fn main() {
    run("C15", Spec {
        ops: &["plain", "precision", "width", "precision+width"],
        rule: "an event is one value formatted with a precision (none, 0..3000), width (none, 0..600) and alternate flag; the full text is compared with exact decimal expansion, half-away rounding and the documented layout; the mode column is the alternate flag; classes: exact = plain integer text, inexact-down = positional fraction, inexact-up = scientific; values at decimal half-way points, range edges and random; non-trivial = finite non-zero",
        quick: 8 * 1800,
        thorough: 8 * 30000,
        chunk,
        gate,
        before,
    })
}
