//! C01: addition and subtraction.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, b: u128, modes: &[u8]) {
    let f = T::FMT;
    let (va, vb) = (model::decode(&f, a), model::decode(&f, b));
    let xs = [model::add(&f, &va, &vb), model::sub(&f, &va, &vb)];
    for (op, x) in xs.iter().enumerate() {
        for &mode in modes {
            let c = case(["add_r", "sub_r"][op], f.name, mode, &[a, b]);
            let Some(got) = ctx.sut(&c, || {
                let (p, q) = (lv::<T>(a), lv2::<T>(b));
                sv(if op == 0 { p.add_r(q, rm(mode)) } else { p.sub_r(q, rm(mode)) })
            }) else {
                continue;
            };
            let want = model::finish(&f, x, mode);
            ctx.check(op, &f, &c, got, &want, nontriv(want.cls));
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && ctx.chunk / NB < 64 {
            // All pairs of the 8-bit formats, spread over 64 chunks.
            let k = (ctx.chunk / NB) as u128;
            for a in k * 4..k * 4 + 4 {
                for b in 0..256 {
                    one::<T>(ctx, a, b, &model::MODES);
                }
            }
            return;
        }
        for _ in 0..600 {
            let (a, b) = gen::add_pair(&mut ctx.rng, &f);
            one::<T>(ctx, a, b, &model::MODES);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[0, 1], &[0, 1, 2, 3, 4, 5, 6, 7], &[Exact, RoundUp, RoundDown, Tie, Carry, SubExact, ZeroExact, NanProp, OvfMax, OvfInf]);
    t.need(&mut v, &[0, 1], &[0, 1, 2, 3, 4, 5, 7], &[Inf, Invalid]);
    v
}

fn main() {
    run("C01", Spec {
        ops: &["add_r", "sub_r"],
        rule: "an event is one add_r/sub_r call; operands are boundary-directed random bit patterns (all 65536 pairs for the 8-bit formats); non-trivial = both operands finite and non-zero with a non-zero or inexact result",
        quick: 8 * 64 * 24,
        thorough: 8 * 64 * 400,
        chunk,
        gate,
        before: nothing,
    })
}
