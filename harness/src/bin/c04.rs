//! C04: fused multiply-add.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, b: u128, d: u128, modes: &[u8]) {
    let f = T::FMT;
    let x = model::fma(&f, &model::decode(&f, a), &model::decode(&f, b), &model::decode(&f, d));
    for &mode in modes {
        let want = model::finish(&f, &x, mode);
        let c = case("mul_add_r", f.name, mode, &[a, b, d]);
        if let Some(got) = ctx.sut(&c, || sv(lv::<T>(a).mul_add_r(lv2::<T>(b), lv3::<T>(d), rm(mode)))) {
            ctx.check(0, &f, &c, got, &want, nontriv(want.cls));
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    // Thorough: every triple of the 8-bit formats (2 x 2^24 x 5 modes), one first operand per chunk.
    let ex = if ctx.thorough { 512 } else { 0 };
    if ctx.chunk < ex {
        let a = (ctx.chunk % 256) as u128;
        by_fmt!(5 + ctx.chunk / 256, T => {
            for b in 0..256 {
                if ctx.stopped() {
                    return;
                }
                for d in 0..256 {
                    one::<T>(ctx, a, b, d, &model::MODES);
                }
            }
        });
        ctx.note("exhaustive_first_operands", 1);
        return;
    }
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        for _ in 0..900 {
            let (a, b, d) = gen::fma_triple(&mut ctx.rng, &f);
            one::<T>(ctx, a, b, d, &model::MODES);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, RoundUp, RoundDown, Tie, Carry, SubExact, SubInexact, SubToNormal, ToZero, ZeroExact, NanProp, OvfMax, OvfInf]);
    t.need(&mut v, &[0], &[0, 1, 2, 3, 4, 5, 7], &[Inf, Invalid]);
    v
}

fn main() {
    run("C04", Spec {
        ops: &["mul_add_r"],
        rule: "an event is one mul_add_r call; operand triples are boundary-directed (cancellation against the rounded product, half-ulp addends, exact ties, tiny significands, extreme exponent gaps; thorough: all triples of the 8-bit formats); non-trivial = a finite non-zero exact result",
        quick: 8 * 64 * 28,
        thorough: 512 + 8 * 64 * 300,
        chunk,
        gate,
        before: nothing,
    })
}
