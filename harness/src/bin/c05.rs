//! C05: truncated and IEEE remainder.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, b: u128) {
    let f = T::FMT;
    let (va, vb) = (model::decode(&f, a), model::decode(&f, b));
    let w = model::finish(&f, &model::fmod(&f, &va, &vb), 0);
    assert!(w.st & !model::INVALID == 0, "oracle: remainder must be exact");
    ev2::<T>(ctx, 0, "c_fmod", a, b, NOMODE, &w, |p, q, _| p.c_fmod(q));
    ev2::<T>(ctx, 1, "rem_operator", a, b, NOMODE, &w, |p, q, _| p % q);
    let w = model::finish(&f, &model::ieee_rem(&f, &va, &vb), 0);
    assert!(w.st & !model::INVALID == 0, "oracle: remainder must be exact");
    ev2::<T>(ctx, 2, "ieee_rem", a, b, NOMODE, &w, |p, q, _| p.ieee_rem(q));
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && ctx.chunk / NB < 64 {
            let k = (ctx.chunk / NB) as u128;
            for a in k * 4..k * 4 + 4 {
                for b in 0..256 {
                    one::<T>(ctx, a, b);
                }
            }
            return;
        }
        let n = match id { 3 | 7 => 60, 2 => 400, _ => 1500 };
        for _ in 0..n {
            let (a, b) = gen::rem_pair(&mut ctx.rng, &f);
            one::<T>(ctx, a, b);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 2], &all, &[Exact, SubExact, ZeroExact, NanProp, Invalid]);
    v
}

fn main() {
    run("C05", Spec {
        ops: &["c_fmod", "rem_operator", "ieee_rem"],
        rule: "an event is one remainder call; operand pairs include half-integer and integer quotients, near-equal operands, full-range exponent gaps, operands near the largest values and subnormals (all 65536 pairs for the 8-bit formats); non-trivial = both operands finite and non-zero with a non-zero remainder",
        quick: 8 * 64 * 12,
        thorough: 8 * 64 * 150,
        chunk,
        gate,
        before: nothing,
    })
}
