//! C17: comparison, equality and min/max follow the numeric order.
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::run::*;
use mon::{by_fmt, gen};
use std::cmp::Ordering;

fn pick<'a>(f: &model::Fmt, a: &'a V, b: &'a V, want_less: bool, nums: bool) -> Vec<u128> {
    // the acceptable encodings
    let e = |v: &V| model::encode(f, v);
    match (a.is_nan(), b.is_nan()) {
        (true, true) => return if nums { vec![e(a), e(b)] } else { vec![e(a)] },
        (true, false) => return vec![if nums { e(b) } else { e(a) }],
        (false, true) => return vec![if nums { e(a) } else { e(b) }],
        _ => {}
    }
    match model::cmp(a, b).unwrap() {
        Ordering::Equal => {
            if a.is_zero() && a.neg() != b.neg() {
                if nums {
                    // minNum/maxNum leave the sign of a zero result open
                    vec![e(a), e(b)]
                } else {
                    vec![e(&V::Zero(want_less))]
                }
            } else {
                vec![e(a)]
            }
        }
        o => vec![if (o == Ordering::Less) == want_less { e(a) } else { e(b) }],
    }
}

fn one<T: Fp>(ctx: &mut Ctx, a: u128, b: u128) {
    let f = T::FMT;
    let (va, vb) = (model::decode(&f, a), model::decode(&f, b));
    let o = model::cmp(&va, &vb);
    let cls = if o.is_none() {
        Cls::NanProp
    } else if va.is_inf() || vb.is_inf() {
        Cls::Inf
    } else if va.is_zero() || vb.is_zero() {
        Cls::ZeroExact
    } else {
        match o.unwrap() {
            Ordering::Equal => Cls::Tie,
            Ordering::Less => Cls::RoundDown,
            Ordering::Greater => Cls::RoundUp,
        }
    };
    let nt = nontriv(cls);
    let c = case("partial_cmp", f.name, NOMODE, &[a, b]);
    let lt = o == Some(Ordering::Less);
    let gt = o == Some(Ordering::Greater);
    let eq = o == Some(Ordering::Equal);
    let want = (o, eq, !eq, lt, lt || eq, gt, gt || eq);
    ev_eq(ctx, 0, f.id, &c, cls, nt, &want, || {
        let (x, y) = (lv::<T>(a), lv2::<T>(b));
        (x.partial_cmp(&y), x == y, x != y, x < y, x <= y, x > y, x >= y)
    });
    let c = case("bitwise_eq", f.name, NOMODE, &[a, b]);
    let want = model::encode(&f, &va) == model::encode(&f, &vb);
    ev_eq(ctx, 1, f.id, &c, cls, nt, &want, || lv::<T>(a).bitwise_eq(lv2::<T>(b)));
    if va.is_fin() && vb.is_fin() {
        let c = case("cmp_abs_normal", f.name, NOMODE, &[a, b]);
        ev_eq(ctx, 2, f.id, &c, cls, nt, &model::cmp_mag(&va, &vb), || lv::<T>(a).cmp_abs_normal(lv2::<T>(b)));
    }
    for (op, name, less, nums) in [(3, "min", true, true), (4, "max", false, true), (5, "minimum", true, false), (6, "maximum", false, false)] {
        let c = case(name, f.name, NOMODE, &[a, b]);
        let want = pick(&f, &va, &vb, less, nums);
        let Some(got) = ctx.sut(&c, || {
            let (x, y) = (lv::<T>(a), lv2::<T>(b));
            match op {
                3 => x.min(y),
                4 => x.max(y),
                5 => x.minimum(y),
                _ => x.maximum(y),
            }
            .to_bits()
        }) else { continue };
        ctx.seen(op, f.id, NOMODE, cls, nt, hash_args(op as u64, &[a, b]));
        if !want.contains(&got) {
            ctx.fail(&c, &format!("got {:#x}, expected {:x?}", got, want));
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 32 {
            for a in k as u128 * 8..k as u128 * 8 + 8 {
                for b in 0..256 {
                    one::<T>(ctx, a, b);
                }
            }
            ctx.note("exhaustive_8bit_pairs", 8 * 256);
            return;
        }
        if k == 32 {
            let s = gen::specials(&f);
            for &a in &s {
                for &b in &s {
                    one::<T>(ctx, a, b);
                }
            }
            return;
        }
        // the same encodings made in different ways
        let r = &mut ctx.rng;
        let mut s = vec![gen::inf(&f, false), gen::inf(&f, true), 0, f.sign_bit(), gen::nan(r, &f), gen::nan(r, &f)];
        for _ in 0..30 {
            s.push(gen::any(r, &f));
        }
        for a in s {
            one::<T>(ctx, a, a);
            one::<T>(ctx, a, a ^ f.sign_bit());
        }
        for i in 0..1500 {
            let r = &mut ctx.rng;
            let (a, b) = match i % 6 {
                0 => (gen::any(r, &f), gen::any(r, &f)),
                1 | 2 => {
                    // neighbours, and the same with opposite signs
                    let a = gen::finite(r, &f);
                    let b = gen::nudge(r, &f, a, 1);
                    (a, if r.chance(1, 4) { b ^ f.sign_bit() } else { b })
                }
                3 => {
                    // one bit flipped
                    let a = gen::any(r, &f);
                    (a, a ^ 1u128 << r.below(f.bits as u64))
                }
                4 => {
                    // same exponent
                    let a = gen::finite(r, &f);
                    let s = gen::pattern(r, f.p - 1);
                    let m = (1u128 << (f.p - 1)) - 1;
                    (a, a & !m | s)
                }
                _ => gen::add_pair(r, &f),
            };
            one::<T>(ctx, a, b);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use model::Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1, 3, 4, 5, 6], &all, &[RoundUp, RoundDown, Tie, ZeroExact, NanProp]);
    t.need(&mut v, &[2], &all, &[RoundUp, RoundDown, Tie]);
    t.need(&mut v, &[0, 1, 3, 4, 5, 6], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need_note(&mut v, "exhaustive_8bit_pairs", 2 * 65536);
    v
}

fn main() {
    run("C17", Spec {
        ops: &["compare", "bitwise_eq", "cmp_abs_normal", "min", "max", "minimum", "maximum"],
        rule: "an event is one pair compared (partial_cmp and all six operators), tested for bitwise equality, compared by magnitude or run through a min/max variant; classes: tie = equal, inexact-down/up = less/greater; every pair for the 8-bit formats, all special pairs, neighbours, single-bit differences, equal exponents; non-trivial = both finite non-zero",
        quick: 8 * 1800,
        thorough: 8 * 50000,
        chunk,
        gate,
        before: nothing,
    })
}
