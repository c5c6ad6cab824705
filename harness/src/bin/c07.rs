//! C07: next-up and next-down.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let want = model::next_up(&f, &va);
    ev1::<T>(ctx, 0, "next_up", a, NOMODE, &want, |p, _| p.next_up());
    let want = model::next_down(&f, &va);
    ev1::<T>(ctx, 1, "next_down", a, NOMODE, &want, |p, _| p.next_down());
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits <= 16 && k < 64 {
            let n = 1u128 << f.bits;
            for a in (k as u128 * n / 64)..((k + 1) as u128 * n / 64) {
                one::<T>(ctx, a);
            }
            ctx.note("exhaustive_patterns", (n / 64) as u64);
            return;
        }
        for _ in 0..3000 {
            let mut a = gen::any(&mut ctx.rng, &f);
            if ctx.rng.chance(1, 3) {
                // binade edges
                let e = gen::exponent(&mut ctx.rng, &f);
                let n = ctx.rng.bool();
                let fr = if ctx.rng.bool() { 0 } else { !0 };
                a = gen::with_exp(&f, n, e, fr);
            }
            one::<T>(ctx, a);
        }
        // walks: successive steps stay consistent
        let mut a = gen::finite(&mut ctx.rng, &f);
        for _ in 0..20 {
            one::<T>(ctx, a);
            let v = model::next_up(&f, &model::decode(&f, a)).v;
            a = model::encode(&f, &v);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1], &all, &[Carry, RoundUp, RoundDown, SubExact, SubToNormal, ToZero, OvfInf, ZeroExact, NanProp]);
    t.need(&mut v, &[0, 1], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need_note(&mut v, "exhaustive_patterns", 2 * 256 + 2 * 65536);
    v
}

fn main() {
    run("C07", Spec {
        ops: &["next_up", "next_down"],
        rule: "an event is one next_up or next_down call; all patterns of the 8- and 16-bit formats, random and binade-edge patterns and short walks elsewhere; non-trivial = finite non-zero operand",
        quick: 8 * 64 * 32,
        thorough: 8 * 64 * 500,
        chunk,
        gate,
        before: nothing,
    })
}
