//! C03: division.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, b: u128) {
    let f = T::FMT;
    let x = model::div(&f, &model::decode(&f, a), &model::decode(&f, b));
    for mode in model::MODES {
        let want = model::finish(&f, &x, mode);
        ev2::<T>(ctx, 0, "div_r", a, b, mode, &want, |p, q, r| p.div_r(q, r));
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && ctx.chunk / NB < 64 {
            let k = (ctx.chunk / NB) as u128;
            for a in k * 4..k * 4 + 4 {
                for b in 0..256 {
                    one::<T>(ctx, a, b);
                }
            }
            return;
        }
        for _ in 0..1000 {
            let (a, b) = gen::div_pair(&mut ctx.rng, &f);
            one::<T>(ctx, a, b);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, RoundUp, RoundDown, SubExact, SubInexact, SubToNormal, ToZero, ZeroExact, NanProp, Invalid, OvfMax, OvfInf]);
    t.need(&mut v, &[0], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    v
}

fn main() {
    run("C03", Spec {
        ops: &["div_r"],
        rule: "an event is one div_r call; operands are boundary-directed random bit patterns (all 65536 pairs for the 8-bit formats); non-trivial = both operands finite and non-zero",
        quick: 8 * 64 * 28,
        thorough: 8 * 64 * 400,
        chunk,
        gate,
        before: nothing,
    })
}
