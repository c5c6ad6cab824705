//! D03: double-double division, FMA, remainders, integral rounding and stepping follow 106-bit arithmetic.
use mon::dd::{self, case2};
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::ops::{self, *};
use mon::run::*;

const OPS: [usize; 8] = [DIV, FMA, FMOD, REM, RTI, NEXT_UP, NEXT_DOWN, INVERSE];

fn one(ctx: &mut Ctx, oi: usize, x: [u128; 3], modes: &[u8]) {
    let op = OPS[oi];
    let v = [dd::to106(x[0]), dd::to106(x[1]), dd::to106(x[2])];
    let n = arity(op);
    if v[..n].iter().any(|v| v.is_nan()) || !v[0].is_fin() {
        return;
    }
    if op == INVERSE {
        let c = case2(ops::NAMES[op], NOMODE, &x[..1]);
        let want = model::exact_inverse(&model::F106, &v[0]).map(|v| dd::split(&v));
        ev_eq(ctx, oi, dd::ID, &c, if want.is_some() { Cls::Exact } else { Cls::Special }, true, &want, || {
            dd::sut(x[0]).get_exact_inverse().map(|v| v.to_bits())
        });
        return;
    }
    for &mode in modes {
        let want = dd::op106(op, &v[0], &v[1], &v[2], mode);
        let m = if takes_mode(op) { mode } else { NOMODE };
        let c = case2(ops::NAMES[op], m, &x[..n]);
        let Some((bits, st)) = ctx.sut(&c, || {
            let g = Args { a: dd::sut(x[0]), b: dd::sut(x[1]), c: dd::sut(x[2]), n: 0, mode };
            let (v, st, _) = ops::sut(op, &g, "");
            (v.to_bits(), st)
        }) else {
            continue;
        };
        let wb = dd::split(&want.v);
        ctx.seen(oi, dd::ID, m, want.cls, nontriv(want.cls), hash_args(op as u64, &c.args));
        ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), bits, st_name(st as u8)));
        let ok = if want.v.is_nan() { dd::value(bits).is_nan() } else { bits == wb };
        // a finite 106-bit result may be infinite as a pair: the status of that step is left open
        let top = want.v.is_fin() && dd::value(wb).is_inf();
        if top {
            ctx.note("106-bit results above the largest pair", 1);
        }
        if !ok || st != want.st as u32 && !top {
            ctx.fail(&c, &format!("got {:#x} {}, expected {:#x} {} (class {})", bits, st_name(st as u8), wb, st_name(want.st), model::CLS_NAMES[want.cls as usize]));
        }
        if !want.v.is_nan() && !dd::normalised(bits) {
            ctx.fail(&c, &format!("got {:#x}, not a normalised pair", bits));
        }
    }
}

/// A triple for a*b+c with cancellation, half-ulp addends and extreme gaps at 106 bits.
fn triple(ctx: &mut Ctx) -> [u128; 3] {
    let r = &mut ctx.rng;
    let f = &model::F106;
    match r.below(6) {
        0 => [dd::any(r), dd::any(r), dd::any(r)],
        1 | 2 | 3 => {
            // addend built from the product
            let e = r.range(-300, 300);
            let a = dd::finite_in(r, e, e);
            let b = dd::finite_in(r, -300, 300);
            let p = match (dd::to106(a), dd::to106(b)) {
                (V::Fin { neg: x, m: am, e: ae }, V::Fin { neg: y, m: bm, e: be }) => model::round_real(f, x != y, &am.mul(&bm), ae + be, false, model::RNE).v,
                _ => V::Zero(false),
            };
            if !p.is_fin() {
                return [a, b, dd::any(r)];
            }
            let c = match r.below(4) {
                0 => dd::split(&p.negated()),
                1 => {
                    let mut q = p.negated();
                    for _ in 0..1 + r.below(3) {
                        q = if r.bool() { model::next_up(f, &q).v } else { model::next_down(f, &q).v };
                    }
                    dd::split(&q)
                }
                2 => {
                    let k = p.ilogb() - 106 + r.range(-2, 2);
                    dd::finite_in(r, k, k)
                }
                _ => {
                    let k = p.ilogb() + r.range(-230, 230);
                    dd::finite_in(r, k, k)
                }
            };
            [a, b, c]
        }
        4 => {
            let e = r.range(-1022, 1023);
            let a = dd::finite_in(r, e, e);
            let k = r.range(-3, 3);
            let b = dd::finite_in(r, -969 - e + k, -969 - e + k + 2);
            let c = dd::finite_in(r, -1022, -900);
            [a, b, c]
        }
        _ => {
            let e = r.range(0, 1023);
            let a = dd::finite_in(r, e, e);
            let b = dd::finite_in(r, 1022 - e, 1024 - e);
            let c = dd::finite_in(r, 900, 1023);
            [a, b, c]
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    for _ in 0..150 {
        let r = &mut ctx.rng;
        // division: unrelated, close, exact quotients, subnormal and overflowing quotients
        let (a, b) = match r.below(4) {
            0 => (dd::finite(r), dd::any(r)),
            1 => dd::pair(r),
            2 => {
                let e = r.range(-1000, 1000);
                let a = dd::finite_in(r, e, e);
                let k = if r.bool() { e - 1023 } else { e + 969 };
                let b = dd::finite_in(r, k - 2, k + 2);
                (a, b)
            }
            _ => {
                // product of two short pairs divided by one of them (exact or nearly so)
                let x = dd::finite_in(r, -200, 200);
                let y = dd::finite_in(r, -200, 200);
                let (hx, hy) = (dd::parts(x).0, dd::parts(y).0);
                match (model::decode(&dd::D, hx), model::decode(&dd::D, hy)) {
                    (V::Fin { neg: p, m: am, e: ae }, V::Fin { neg: q, m: bm, e: be }) => {
                        let z = dd::split(&V::Fin { neg: p != q, m: am.mul(&bm), e: ae + be });
                        (if r.bool() { z } else { dd::near(r, z) }, dd::join(hy, 0))
                    }
                    _ => (x, y),
                }
            }
        };
        one(ctx, 0, [a, b, 0], &model::MODES);
        let t = triple(ctx);
        one(ctx, 1, t, &model::MODES);
        let r = &mut ctx.rng;
        // remainders: gaps kept moderate so that the oracle's division stays cheap
        let e = r.range(-1000, 1000);
        let gap = if r.chance(1, 10) { r.range(0, 2000) } else { r.range(-4, 220) };
        let x = dd::finite_in(r, e, e);
        let y = match r.below(5) {
            0 => dd::near(r, x),
            1 => {
                // a half multiple
                match dd::to106(x) {
                    V::Fin { m, e, .. } => {
                        let k = 1 + 2 * r.below(8) as i64;
                        let (q, _) = m.shl(8).divrem(&mon::big::Big::from_u128(k as u128));
                        dd::split(&model::round_real(&model::F106, r.bool(), &q, e - 7, false, model::RNE).v)
                    }
                    _ => x,
                }
            }
            _ => dd::finite_in(r, e - gap, e - gap),
        };
        one(ctx, 2, [x, y, 0], &[0]);
        one(ctx, 3, [x, y, 0], &[0]);
        let r = &mut ctx.rng;
        // integral rounding: halves, both parts around the point
        let a = match r.below(4) {
            0 => dd::finite(r),
            1 => {
                let e = r.range(-3, 110);
                dd::finite_in(r, e, e)
            }
            2 => {
                let m = mon::gen::pattern(r, 106) | 1 << r.below(106);
                let k = r.below(108) as i64;
                dd::split(&V::Fin { neg: r.bool(), m: mon::big::Big::from_u128(m), e: -k })
            }
            _ => {
                // an integer and a half, to one side or the other by a hair
                let m = r.u64() as u128 >> r.below(64) << 1 | 1;
                let h = dd::split(&V::Fin { neg: r.bool(), m: mon::big::Big::from_u128(m), e: -1 });
                if r.bool() { h } else { dd::near(r, h) }
            }
        };
        one(ctx, 4, [a, 0, 0], &model::MODES);
        let r = &mut ctx.rng;
        let a = match r.below(3) {
            0 => dd::finite(r),
            1 => {
                // next to a binade boundary
                let e = r.range(-1022, 1023);
                let h = mon::gen::with_exp(&dd::D, r.bool(), e, 0);
                let v = dd::to106(h);
                let w = match r.below(3) {
                    0 => v,
                    1 => model::next_up(&model::F106, &v).v,
                    _ => model::next_down(&model::F106, &v).v,
                };
                if w.is_fin() { dd::split(&w) } else { h }
            }
            _ => {
                let h = mon::gen::finite_in(r, &dd::D, -1074, -960);
                dd::join(h, 0)
            }
        };
        one(ctx, 5, [a, 0, 0], &[0]);
        one(ctx, 6, [a, 0, 0], &[0]);
        one(ctx, 7, [a, 0, 0], &[0]);
        let r = &mut ctx.rng;
        let e = r.range(-1074, 1023);
        let p2 = mon::gen::with_exp(&dd::D, r.bool(), e, 0);
        one(ctx, 7, [p2, 0, 0], &[0]);
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[0, 1], &[dd::ID], &[Exact, RoundUp, RoundDown, SubExact, SubInexact, OvfInf, OvfMax]);
    t.need(&mut v, &[1], &[dd::ID], &[Tie, ZeroExact]);
    t.need(&mut v, &[2, 3], &[dd::ID], &[Exact, ZeroExact, SubExact]);
    t.need(&mut v, &[4], &[dd::ID], &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[7], &[dd::ID], &[Exact, Special]);
    for op in [5, 6] {
        if t.mode(op, dd::ID, NOMODE) < 10_000 {
            v.push(format!("op {} observed fewer than 10000 times", op));
        }
    }
    t.need_note(&mut v, "106-bit results above the largest pair", 10);
    v
}

fn main() {
    run("D03", Spec {
        ops: &["div_r", "mul_add_r", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down", "get_exact_inverse"],
        rule: "an event is one double-double operation compared, components and status, with the exact result rounded once to 106 bits and split into high and low doubles; non-trivial = a finite non-zero exact result",
        quick: 10000,
        thorough: 400_000,
        chunk,
        gate,
        before: nothing,
    })
}
