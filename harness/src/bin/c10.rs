//! C10: conversion from integers.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, n: u128) {
    let f = T::FMT;
    let s = n as i128;
    for mode in model::MODES {
        let want = model::from_int(&f, false, n, mode);
        let c = case("from_u128_r", f.name, mode, &[n]);
        if let Some(got) = ctx.sut(&c, || sv(T::from_u128_r(n, rm(mode)))) {
            ctx.check(0, &f, &c, got, &want, nontriv(want.cls));
        }
        let want = model::from_int(&f, s < 0, s.unsigned_abs(), mode);
        let c = case("from_i128_r", f.name, mode, &[n]);
        if let Some(got) = ctx.sut(&c, || sv(T::from_i128_r(s, rm(mode)))) {
            ctx.check(1, &f, &c, got, &want, nontriv(want.cls));
        }
    }
    let want = model::from_int(&f, false, n, 0);
    let c = case("from_u128", f.name, NOMODE, &[n]);
    if let Some(got) = ctx.sut(&c, || sv(T::from_u128(n))) {
        ctx.check(0, &f, &c, got, &want, false);
    }
    let want = model::from_int(&f, s < 0, s.unsigned_abs(), 0);
    let c = case("from_i128", f.name, NOMODE, &[n]);
    if let Some(got) = ctx.sut(&c, || sv(T::from_i128(s))) {
        ctx.check(1, &f, &c, got, &want, false);
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if k < 16 {
            for n in k as u128 * 256..(k as u128 + 1) * 256 {
                one::<T>(ctx, n);
                one::<T>(ctx, n.wrapping_neg());
            }
            return;
        }
        for _ in 0..1000 {
            let n = gen::int_arg(&mut ctx.rng, &f);
            let n = if ctx.rng.bool() { n } else { n.wrapping_neg() };
            one::<T>(ctx, n);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1], &all, &[Exact, RoundUp, RoundDown, Tie, Carry, ZeroExact]);
    t.need(&mut v, &[0, 1], &[0, 5, 6], &[OvfMax, OvfInf]);
    v
}

fn main() {
    run("C10", Spec {
        ops: &["from_u128", "from_i128"],
        rule: "an event is one conversion from a 128-bit integer; integers have a P-bit head and a 0..0, 10..0, 10..01 or 01..1 tail at every length, sit around powers of two and the overflow threshold, or are small or random; non-trivial = non-zero integer",
        quick: 8 * 64 * 24,
        thorough: 8 * 64 * 400,
        chunk,
        gate,
        before: nothing,
    })
}
