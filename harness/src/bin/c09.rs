//! C09: conversion to integers.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, width: u32, signed: bool) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let op = signed as usize;
    for mode in model::MODES {
        let (v, st, ex, cls) = model::to_int(&va, width, signed, mode);
        let c = case(["to_u128_r", "to_i128_r"][op], f.name, mode, &[a, width as u128]);
        let init = (a ^ mode as u128) & 1 != 0;
        ev_eq(ctx, op, f.id, &c, cls, nontriv(cls), &(v, st, ex), || {
            let x = lv::<T>(a);
            let mut e = init;
            if signed {
                let r = x.to_i128_r(width as usize, rm(mode), &mut e);
                (r.value as u128, r.status.bits(), e)
            } else {
                let r = x.to_u128_r(width as usize, rm(mode), &mut e);
                (r.value, r.status.bits(), e)
            }
        });
        if mode == model::RTZ {
            let c = case(["to_u128", "to_i128"][op], f.name, NOMODE, &[a, width as u128]);
            ev_eq(ctx, op, f.id, &c, cls, false, &(v, st), || {
                let x = lv::<T>(a);
                if signed {
                    let r = x.to_i128(width as usize);
                    (r.value as u128, r.status.bits())
                } else {
                    let r = x.to_u128(width as usize);
                    (r.value, r.status.bits())
                }
            });
        }
    }
}

/// Values at the saturation boundary of the width, and integral boundaries in general.
fn arg(ctx: &mut Ctx, f: &model::Fmt, w: u32) -> u128 {
    let r = &mut ctx.rng;
    let neg = r.bool();
    match r.below(6) {
        0 => gen::any(r, f),
        1 | 2 => gen::integral_arg(r, f),
        3 => {
            let e = w as i64 - r.range(0, 2);
            gen::finite_in(r, f, e, e)
        }
        _ => {
            // 2^w, 2^(w-1) and their predecessors, plus small fractions
            let k = w as i64 - r.range(0, 1);
            let fr = r.range(0, 3);
            let big = mon::big::Big::pow2(k + fr);
            let d = mon::big::Big::from_u128(r.below(6) as u128);
            let m = if r.bool() { big.add(&d) } else if big.bits() > 4 { big.sub(&d) } else { big };
            let o = model::round_real(f, neg, &m, -fr, false, *r.pick(&model::MODES));
            let b = model::encode(f, &o.v);
            if r.bool() { b } else { gen::nudge(r, f, b, 1) }
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 64 {
            // all patterns x two widths per chunk, so all widths
            for w in [2 * k as u32 + 1, 2 * k as u32 + 2] {
                for a in 0..256 {
                    one::<T>(ctx, a, w, true);
                    one::<T>(ctx, a, w, false);
                }
            }
            ctx.note("exhaustive_8bit_widths", 2);
            return;
        }
        for _ in 0..900 {
            let w = match ctx.rng.below(4) {
                0 => *ctx.rng.pick(&[1u32, 2, 3, 5, 8, 16, 31, 32, 63, 64, 65, 127, 128]),
                1 => (f.p as u32 + ctx.rng.below(5) as u32).saturating_sub(2).clamp(1, 128),
                _ => 1 + ctx.rng.below(128) as u32,
            };
            let a = arg(ctx, &f, w);
            let s = ctx.rng.bool();
            one::<T>(ctx, a, w, s);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1], &all, &[Exact, RoundUp, RoundDown, Tie, ToZero, OvfMax, ZeroExact, NanProp]);
    t.need(&mut v, &[0, 1], &[0, 1, 2, 3, 4, 5, 7], &[Inf, OvfInf]);
    t.need_note(&mut v, "exhaustive_8bit_widths", 256);
    v
}

fn main() {
    run("C09", Spec {
        ops: &["to_u128", "to_i128"],
        rule: "an event is one integer conversion (width 1..128, signed or not, 5 modes, value/status/is_exact compared); all patterns x widths for the 8-bit formats, saturation-boundary and half-integer values elsewhere; non-trivial = finite non-zero operand",
        quick: 8 * 64 * 32,
        thorough: 8 * 64 * 500,
        chunk,
        gate,
        before: nothing,
    })
}
