//! C22: sign operations and class queries touch and read only what they should.
use mon::fp::*;
use mon::model::{self, Class, Cls};
use mon::ops;
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, b: u128) {
    let f = T::FMT;
    let (va, vb) = (model::decode(&f, a), model::decode(&f, b));
    let k = model::class(&f, &va);
    let cls = match k {
        Class::Snan => Cls::Invalid,
        _ => model::vcls(&f, &va),
    };
    let nt = nontriv(cls) || va.is_nan();
    let e = model::encode(&f, &va);
    let s = f.sign_bit();
    let c = case("neg", f.name, NOMODE, &[a]);
    ev_eq(ctx, 0, f.id, &c, cls, nt, &(e ^ s, e), || {
        let x = -lv::<T>(a);
        (x.to_bits(), (-x).to_bits())
    });
    let c = case("abs", f.name, NOMODE, &[a]);
    ev_eq(ctx, 1, f.id, &c, cls, nt, &(e & !s, e & !s), || {
        let x = lv::<T>(a);
        (x.abs().to_bits(), (-x).abs().to_bits())
    });
    let c = case("copy_sign", f.name, NOMODE, &[a, b]);
    let (pos, neg) = (e & !s, e | s);
    ev_eq(ctx, 2, f.id, &c, cls, nt, &if vb.neg() { neg } else { pos }, || lv::<T>(a).copy_sign(lv2::<T>(b)).to_bits());
    // queries, each by name
    let q = ops::query_bits(&f, &va);
    let c = case("queries", f.name, NOMODE, &[a]);
    let names = [
        "is_negative", "is_zero", "is_finite", "is_normal", "is_denormal", "is_infinite", "is_nan", "is_signaling", "is_non_zero", "is_finite_non_zero",
        "is_pos_zero", "is_neg_zero", "is_pos_infinity", "is_neg_infinity", "is_smallest", "is_smallest_normalized", "is_largest",
    ];
    let want: Vec<bool> = (0..17).map(|i| q >> i & 1 != 0).collect();
    let got = ctx.sut(&c, || {
        let a = lv::<T>(a);
        [
            a.is_negative(), a.is_zero(), a.is_finite(), a.is_normal(), a.is_denormal(), a.is_infinite(), a.is_nan(), a.is_signaling(), a.is_non_zero(),
            a.is_finite_non_zero(), a.is_pos_zero(), a.is_neg_zero(), a.is_pos_infinity(), a.is_neg_infinity(), a.is_smallest(),
            a.is_smallest_normalized(), a.is_largest(),
        ]
    });
    if let Some(g) = got {
        ctx.seen(3, f.id, NOMODE, cls, nt, hash_args(3, &[a]));
        if want[14] {
            ctx.note("smallest", 1);
        }
        if want[15] {
            ctx.note("smallest normalized", 1);
        }
        if want[16] {
            ctx.note("largest", 1);
        }
        for i in 0..17 {
            if g[i] != want[i] {
                ctx.fail(&c, &format!("{} answers {}, the encoding says {} ({:?})", names[i], g[i], want[i], k));
            }
        }
    }
    // the queries do not depend on how the value was reached (sign operations keep the class)
    let c = case("queries after sign operations", f.name, NOMODE, &[a]);
    ev_eq(ctx, 3, f.id, &c, cls, false, &(k == Class::Sub, k == Class::Snan, va.is_nan(), va.is_zero(), want[14], want[15], want[16]), || {
        let x = -lv::<T>(a);
        (x.is_denormal(), x.is_signaling(), x.is_nan(), x.is_zero(), x.is_smallest(), x.is_smallest_normalized(), x.is_largest())
    });
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits <= 16 && k < 64 {
            let n = (1u128 << f.bits) / 64;
            for a in n * k as u128..n * (k as u128 + 1) {
                let b = gen::any(&mut ctx.rng, &f);
                one::<T>(ctx, a, b);
            }
            ctx.note("exhaustive_16bit_blocks", 1);
            return;
        }
        if k == 64 {
            let s = gen::specials(&f);
            for &a in &s {
                for &b in &s {
                    one::<T>(ctx, a, b);
                }
                // every single-bit change of every special value
                for i in 0..f.bits {
                    one::<T>(ctx, a ^ 1 << i, a);
                }
                for d in 1..4u128 {
                    one::<T>(ctx, a.wrapping_add(d) & f.all_mask(), a);
                    one::<T>(ctx, a.wrapping_sub(d) & f.all_mask(), a);
                }
            }
            return;
        }
        for i in 0..2000 {
            let r = &mut ctx.rng;
            let a = match i % 4 {
                0 => r.u128() & f.all_mask(),
                1 => gen::nan(r, &f),
                2 => {
                    let ex = match r.below(4) { 0 => 0, 1 => 1, 2 => f.exp_mask(), _ => f.exp_mask() - 1 };
                    let s = gen::pattern(r, f.fw() as i64);
                    gen::pack(&f, r.bool(), ex, s)
                }
                _ => gen::any(r, &f),
            };
            let b = gen::any(r, &f);
            one::<T>(ctx, a, b);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1, 2, 3], &all, &[Exact, SubExact, ZeroExact, NanProp]);
    t.need(&mut v, &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 7], &[Inf, Invalid]);
    t.need_note(&mut v, "exhaustive_16bit_blocks", 256);
    t.need_note(&mut v, "smallest", 16);
    t.need_note(&mut v, "smallest normalized", 16);
    t.need_note(&mut v, "largest", 16);
    v
}

fn main() {
    run("C22", Spec {
        ops: &["neg", "abs", "copy_sign", "queries"],
        rule: "an event is one sign operation (bits compared, negation twice) or one complete set of 17 class queries compared with the encoding; every pattern of the 8- and 16-bit formats, all pairs and all single-bit changes of special patterns, random and structured elsewhere; non-trivial = finite non-zero or NaN",
        quick: 8 * 1600,
        thorough: 8 * 40000,
        chunk,
        gate,
        before: nothing,
    })
}
