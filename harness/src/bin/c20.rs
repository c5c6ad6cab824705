//! C20: an exact inverse is offered exactly when one exists.
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let want = model::exact_inverse(&f, &va).map(|v| model::encode(&f, &v));
    let cls = match (&va, &want) {
        (_, Some(_)) => Cls::Exact,
        (V::Fin { m, .. }, None) => {
            if m.trailing_zeros() == m.bits() - 1 {
                Cls::SubExact // a power of two at the edge of the range
            } else {
                Cls::RoundDown
            }
        }
        (v, None) => model::vcls(&f, v),
    };
    let c = case("get_exact_inverse", f.name, NOMODE, &[a]);
    ev_eq(ctx, 0, f.id, &c, cls, nontriv(cls), &want, || lv::<T>(a).get_exact_inverse().map(|v| v.to_bits()));
    if want.is_some() {
        // it really inverts
        let c = case("x*inverse", f.name, NOMODE, &[a]);
        let one = model::encode(&f, &V::Fin { neg: false, m: mon::big::Big::one(), e: 0 });
        ev_eq(ctx, 1, f.id, &c, cls, true, &Some((one, 0)), || {
            let x = lv::<T>(a);
            x.get_exact_inverse().map(|v| sv(x * v))
        });
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits <= 16 && k < 64 {
            let n = (1u128 << f.bits) / 64;
            for a in n * k as u128..n * (k as u128 + 1) {
                one::<T>(ctx, a);
            }
            ctx.note("exhaustive_16bit_blocks", 1);
            return;
        }
        if k < 64 {
            // every power of two, and its neighbours
            let total = f.emax - f.qmin() + 1;
            let (lo, hi) = (f.qmin() + total * k as i64 / 64, f.qmin() + total * (k as i64 + 1) / 64);
            for e in lo..hi {
                for neg in [false, true] {
                    let a = gen::with_exp(&f, neg, e, 0);
                    one::<T>(ctx, a);
                    let b = gen::nudge(&mut ctx.rng, &f, a, 1);
                    one::<T>(ctx, b);
                    let bit = ctx.rng.below(f.p as u64 - 1);
                    one::<T>(ctx, gen::with_exp(&f, neg, e, 1u128 << bit));
                }
            }
            ctx.note("all_powers_of_two", (hi - lo) as u64);
            return;
        }
        if k == 64 {
            for a in gen::specials(&f) {
                one::<T>(ctx, a);
            }
        }
        for _ in 0..2000 {
            let a = gen::any(&mut ctx.rng, &f);
            one::<T>(ctx, a);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, SubExact, RoundDown, ZeroExact, NanProp]);
    t.need(&mut v, &[0], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need_note(&mut v, "exhaustive_16bit_blocks", 256);
    t.need_note(&mut v, "all_powers_of_two", 30000);
    v
}

fn main() {
    run("C20", Spec {
        ops: &["get_exact_inverse", "x*inverse"],
        rule: "an event is one exact-inverse query compared with exact arithmetic (and multiplied back when offered); every value of the 8- and 16-bit formats and every power of two (with neighbours) of every format incl. the subnormal and top edges; classes: exact = an inverse exists, subnormal-exact = a power of two without one, inexact-down = other finite; non-trivial = finite non-zero",
        quick: 8 * 2000,
        thorough: 8 * 20000,
        chunk,
        gate,
        before: nothing,
    })
}
