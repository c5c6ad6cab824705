//! C08: conversion between formats.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<S: Fp + FloatConvert<T>, T: Fp>(ctx: &mut Ctx, a: u128) {
    let (f, t) = (S::FMT, T::FMT);
    let va = model::decode(&f, a);
    for mode in model::MODES {
        let (want, lost) = model::convert(&f, &t, &va, mode);
        let c = case(NAMES[t.id as usize], f.name, mode, &[a]);
        // The flag is an output: whatever was in it before must not matter.
        let init = (a ^ mode as u128) & 1 != 0;
        let Some((got, st, li)) = ctx.sut(&c, || {
            let mut li = init;
            let r = lv::<S>(a).convert_r(rm(mode), &mut li);
            (r.value, r.status.bits(), li)
        }) else {
            continue;
        };
        let Some(mut gb) = ctx.sut(&c, || got.to_bits()) else { continue };
        if va.is_nan() && f.nanonly && !t.nanonly {
            // The payload given to the NaN of a format without payloads is unspecified.
            let v = model::decode(&t, gb);
            if v.is_nan() && !model::is_signaling(&t, &v) && v.neg() == want.v.neg() {
                gb = model::encode(&t, &want.v);
            }
        }
        ctx.check(t.id as usize, &t, &c, (gb, st), &want, nontriv(want.cls));
        if li != lost {
            ctx.fail(&c, &format!("loses_info is {}, expected {} (result {:#x} {})", li, lost, gb, st_name(st)));
        }
        if mode == 0 {
            let c2 = case("convert (default rounding)", f.name, NOMODE, &[a]);
            if let Some(r2) = ctx.sut(&c2, || {
                let mut li = !init;
                let r = lv::<S>(a).convert(&mut li);
                (r.value.to_bits(), r.status.bits(), li)
            }) {
                if r2 != (got.to_bits(), st, li) {
                    ctx.fail(&c2, &format!("convert gives {:x?}, convert_r nearest-even {:x?}", r2, (got.to_bits(), st, li)));
                }
            }
        }
    }
}
const NAMES: [&str; 8] = ["to Half", "to Single", "to Double", "to Quad", "to BFloat", "to Float8E5M2", "to Float8E4M3FN", "to X87"];

fn chunk(ctx: &mut Ctx) {
    let pair = ctx.chunk % 64;
    let k = ctx.chunk / 64;
    let (i, j) = (pair / 8, pair % 8);
    by_fmt!(i, S => by_fmt!(j, T => {
        let (f, t) = (S::FMT, T::FMT);
        if f.bits <= 16 && k < 8 {
            let n = 1u128 << f.bits;
            for a in (k as u128 * n / 8)..((k + 1) as u128 * n / 8) {
                one::<S, T>(ctx, a);
            }
            ctx.note("exhaustive_patterns", (n / 8) as u64);
            return;
        }
        for _ in 0..1500 {
            let a = gen::convert_arg(&mut ctx.rng, &f, &t);
            one::<S, T>(ctx, a);
        }
    }))
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    for to in 0..8usize {
        t.need(&mut v, &[to], &[to as u8], &[Exact, SubExact, ZeroExact, Inf, NanProp]);
        if to != 3 {
            let cl: &[Cls] = if to == 7 { &[OvfInf] } else { &[OvfInf, OvfMax] };
            t.need(&mut v, &[to], &[to as u8], cl);
            t.need(&mut v, &[to], &[to as u8], &[RoundUp, RoundDown, Tie, Carry, SubInexact, SubToNormal, ToZero]);
        }
    }
    t.need_note(&mut v, "exhaustive_patterns", 8 * (2 * 256 + 2 * 65536));
    v
}

fn main() {
    run("C08", Spec {
        ops: &NAMES,
        rule: "an event is one convert_r call (all 64 format pairs x 5 modes); sources are all patterns of the 8- and 16-bit formats and, elsewhere, target values, midpoints and range edges plus or minus a little, NaNs and random patterns; non-trivial = finite non-zero source",
        quick: 64 * 192,
        thorough: 64 * 3000,
        chunk,
        gate,
        before: nothing,
    })
}
