//! D02: double-double addition, subtraction and multiplication are accurate and stay normalised.
use mon::big::Big;
use mon::dd::{self, case2, top};
use mon::fp::*;
use mon::gen;
use mon::model::{self, Cls, V};
use mon::run::*;
use std::cmp::Ordering;

const NAMES: [&str; 3] = ["add_r", "sub_r", "mul_r"];

fn mag(v: &V) -> V {
    if v.neg() { v.negated() } else { v.clone() }
}
fn mul_exact(a: &V, b: &V) -> V {
    match (a, b) {
        (V::Fin { neg: x, m: am, e: ae }, V::Fin { neg: y, m: bm, e: be }) => V::Fin { neg: x != y, m: am.mul(bm), e: ae + be },
        _ => V::Zero(a.neg() != b.neg()),
    }
}

fn one(ctx: &mut Ctx, op: usize, a: u128, b: u128, mode: u8) {
    let (va, vb) = (dd::value(a), dd::value(b));
    if !va.is_fin() || !vb.is_fin() {
        return;
    }
    let exact = match op {
        0 => dd::exact_sum(&va, &vb),
        1 => dd::exact_sum(&va, &vb.negated()),
        _ => mul_exact(&va, &vb),
    };
    let sgn_mul = va.neg() != vb.neg();
    // The error terms of a small product are themselves rounded; sums have no such terms.
    let tail = op != 2 || top(&exact) > -960;
    let high = exact.is_fin() && top(&exact) > 1022 || top(&va).max(top(&vb)) > 1022;
    if !tail {
        ctx.note("products near the subnormal range", 1);
    }
    if high && mode != model::RNE {
        return; // left open
    }
    let c = case2(NAMES[op], mode, &[a, b]);
    let Some(bits) = ctx.sut(&c, || {
        let (x, y) = (dd::sut(a), dd::sut(b));
        let r = rm(mode);
        match op {
            0 => x.add_r(y, r),
            1 => x.sub_r(y, r),
            _ => x.mul_r(y, r),
        }
        .value
        .to_bits()
    }) else {
        return;
    };
    let got = dd::value(bits);
    let heads = dd::parts(a).1 & !(1 << 63) == 0 && dd::parts(b).1 & !(1 << 63) == 0;
    let cls = if high { Cls::OvfMax } else if !exact.is_fin() { Cls::ZeroExact } else if heads { Cls::Exact } else { Cls::RoundUp };
    ctx.seen(op, dd::ID, 0, cls, true, hash_args(op as u64, &[a, b]));
    ctx.sample(|| format!("{} -> {:#x}", c.describe(), bits));
    // Overflow: certain beyond 2^1024, possible within the last two binades.
    if exact.is_fin() && top(&exact) > 1024 {
        if !(got.is_inf() && got.neg() == exact.neg() && dd::vparts(bits).1.is_zero()) {
            ctx.fail(&c, &format!("got {:#x} for a result beyond 2^1024", bits));
        }
        ctx.note("overflows", 1);
        return;
    }
    if !got.is_finite() {
        // Within a few units of the last place of the largest double the high part may round up.
        let edge = V::Fin { neg: false, m: Big::from_u128((1 << 51) - 1), e: 973 };
        ctx.note("infinities near the top", 1);
        if !(got.is_inf() && dd::vparts(bits).1.is_zero() && exact.is_fin() && got.neg() == exact.neg()) {
            ctx.fail(&c, &format!("got {:#x} for a finite result", bits));
        } else if model::cmp_mag(&exact, &edge) == Ordering::Less {
            ctx.fail(&c, &format!("got {:#x} for a result within range", bits));
        }
        return;
    }
    let (h, l) = dd::vparts(bits);
    if mode == model::RNE && tail && !dd::normalised(bits) || l.is_fin() && top(&l) > top(&h) - 52 && top(&h) > -969 {
        ctx.fail(&c, &format!("got {:#x}, whose high part is not its value rounded to double", bits));
        return;
    }
    // |got - exact| against the bound, exactly.
    let diff = dd::exact_sum(&got, &exact.negated());
    let bound = match op {
        2 => {
            let rel = mon::pairs::scaled(&mag(&exact), if mode == model::RNE { -102 } else { -100 });
            if tail { rel } else { dd::exact_sum(&rel, &mon::pairs::power(-1072)) }
        }
        _ => match dd::exact_sum(&mag(&va), &mag(&vb)) {
            V::Fin { m, e, .. } => V::Fin { neg: false, m, e: e - if mode == model::RNE { 102 } else { 100 } },
            v => v,
        },
    };
    let neg_ok = !got.is_fin() || !exact.is_fin() || got.neg() == exact.neg() || op != 2 || !tail;
    if op == 2 && tail && got.neg() != sgn_mul {
        ctx.fail(&c, &format!("got {:#x}, a product of the wrong sign", bits));
    }
    if !neg_ok {
        ctx.fail(&c, &format!("got {:#x}, of the wrong sign", bits));
    }
    if tail && (mode == model::RTP || mode == model::RTN) {
        let full = !dd::vparts(a).1.is_zero() && !dd::vparts(b).1.is_zero();
        if (op < 2 || !full) && diff.is_fin() {
            ctx.note("inexact directed results on the right side", 1);
            if diff.neg() != (mode == model::RTN) {
                ctx.fail(&c, &format!("got {:#x}, on the wrong side of the exact result", bits));
            }
        }
    }
    if diff.is_fin() {
        if model::cmp_mag(&diff, &bound) == Ordering::Greater {
            ctx.fail(&c, &format!("got {:#x}, which is off by more than the bound: error 2^{}, bound 2^{}", bits, top(&diff) - 1, top(&bound) - 1));
        }
        // how close the observed errors come to the bound (in bits)
        let d = top(&bound) - top(&diff);
        ctx.note(
            match d {
                i64::MIN..=0 => "error within 2^1 of the bound",
                1 => "error within 2^2 of the bound",
                i64::MIN..=2 => "error within 2^3 of the bound",
                3..=4 => "error within 2^5 of the bound",
                5..=8 => "error within 2^9 of the bound",
                _ => "error far below the bound",
            },
            1,
        );
        // Low parts zero: exact.
        if mode == model::RNE && heads && mon::pairs::lsb(&exact) >= -1074 {
            ctx.fail(&c, &format!("got {:#x}, but operands without low parts must give the exact result", bits));
        }
    } else {
        ctx.note("exact results", 1);
    }
}

fn operands(ctx: &mut Ctx) -> (u128, u128) {
    let r = &mut ctx.rng;
    match r.below(10) {
        0 => {
            // doubles
            let a = gen::finite_in(r, &dd::D, -300, 300);
            let e = model::decode(&dd::D, a).ilogb();
            let b = match r.below(3) {
                0 => gen::finite_in(r, &dd::D, e - 60, e + 60),
                1 => gen::finite_in(r, &dd::D, e - 2, e + 2),
                _ => gen::nudge(r, &dd::D, a ^ 1 << 63, 4),
            };
            (a, b)
        }
        1 | 2 => {
            let e = r.range(-400, 400);
            let a = dd::finite_in(r, e, e);
            (a, dd::finite_in(r, e - 4, e + 4))
        }
        3 => {
            let e = r.range(-400, 400);
            let a = dd::finite_in(r, e, e);
            (a, dd::finite_in(r, e - 120, e + 120))
        }
        4 | 5 => {
            // cancellation, with related low parts
            let e = r.range(-400, 400);
            let a = dd::finite_in(r, e, e);
            let n = dd::near(r, a);
            (a, dd::negate(n))
        }
        6 => {
            // across a binade boundary
            let e = r.range(-400, 400);
            let h = gen::with_exp(&dd::D, r.bool(), e, 0);
            let g = gen::nudge(r, &dd::D, h, 2) ^ 1 << 63;
            let (l, m) = (dd::low_for(r, h), dd::low_for(r, g));
            (dd::join(h, l), dd::join(g, m))
        }
        7 if r.bool() => dd::near_top(r),
        7 => {
            // around overflow
            let a = dd::finite_in(r, 1021, 1023);
            (a, dd::finite_in(r, 900, 1023))
        }
        8 if r.chance(1, 3) => {
            // at and below the subnormal threshold
            let e = r.range(-1074, 60);
            let a = dd::finite_in(r, e, e);
            let k = if r.bool() { (-1100 - e + r.range(0, 200)).max(-1074) } else { r.range(-1074, -900) };
            (a, dd::finite_in(r, k, (k + 3).min(1023)))
        }
        8 => {
            // products around overflow
            let e = r.range(300, 700);
            let a = dd::finite_in(r, e, e);
            (a, dd::finite_in(r, 1021 - e, 1024 - e))
        }
        _ => dd::pair(r),
    }
}

fn chunk(ctx: &mut Ctx) {
    for _ in 0..1500 {
        let (a, b) = operands(ctx);
        for op in 0..3 {
            let other = 1 + ctx.rng.below(4) as u8;
            one(ctx, op, a, b, model::RNE);
            one(ctx, op, a, b, other);
        }
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[0, 1, 2], &[dd::ID], &[Exact, RoundUp, OvfMax]);
    t.need(&mut v, &[0, 1], &[dd::ID], &[ZeroExact]);
    t.need_note(&mut v, "overflows", 1000);
    t.need_note(&mut v, "infinities near the top", 1000);
    t.need_note(&mut v, "exact results", 10_000);
    t.need_note(&mut v, "products near the subnormal range", 10_000);
    t.need_note(&mut v, "inexact directed results on the right side", 10_000);
    v
}

fn main() {
    let _ = Big::zero();
    run("D02", Spec {
        ops: &NAMES,
        rule: "an event is one add/sub/mul of two normalised finite pairs, in round-to-nearest and in another mode; the exact result is computed with big integers and the delivered pair is checked for its distance from it, for normalisation, for the side of the exact result it is on in directed modes, and for exactness when the low parts are zero; every event counts as non-trivial",
        quick: 4500,
        thorough: 200_000,
        chunk,
        gate,
        before: nothing,
    })
}
