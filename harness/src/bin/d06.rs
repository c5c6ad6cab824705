//! D06: the status flags of double-double arithmetic tell the truth about what happened.
use mon::dd::{self, case2, top};
use mon::fp::*;
use mon::gen;
use mon::model::{self, Cls, V};
use mon::ops::{self, *};
use mon::run::*;

const OPS: [usize; 10] = [ADD, SUB, MUL, DIV, FMA, FMOD, REM, RTI, NEXT_UP, NEXT_DOWN];
const OK: u8 = 0;
const INVALID: u8 = 1;
const DIVZERO: u8 = 2;
const OVERFLOW: u8 = 4;
const UNDERFLOW: u8 = 8;
const INEXACT: u8 = 16;

fn snan(b: u128) -> bool {
    model::class(&dd::D, &dd::vparts(b).0) == model::Class::Snan
}

fn call(ctx: &mut Ctx, op: usize, x: [u128; 3], mode: u8) -> Option<(Case, u128, u8)> {
    let n = arity(op);
    let m = if takes_mode(op) { mode } else { NOMODE };
    let c = case2(ops::NAMES[op], m, &x[..n]);
    let (bits, st) = ctx.sut(&c, || {
        let g = Args { a: dd::sut(x[0]), b: dd::sut(x[1]), c: dd::sut(x[2]), n: 0, mode };
        let (v, st, _) = ops::sut(op, &g, "");
        (v.to_bits(), st)
    })?;
    Some((c, bits, st as u8))
}

/// At least one operand is a zero, an infinity or a NaN.
fn special(ctx: &mut Ctx, oi: usize, x: [u128; 3], mode: u8) {
    let op = OPS[oi];
    let n = arity(op);
    let v = [dd::to106(x[0]), dd::to106(x[1]), dd::to106(x[2])];
    if v[..n].iter().all(|v| v.is_fin()) || x[..n].iter().any(|b| snan(*b)) {
        return;
    }
    let Some((c, bits, st)) = call(ctx, op, x, mode) else { return };
    let want = dd::op106(op, &v[0], &v[1], &v[2], mode);
    let nan = v[..n].iter().any(|v| v.is_nan());
    let cls = if nan {
        Cls::NanProp
    } else if want.st & INVALID != 0 {
        Cls::Invalid
    } else if want.st & DIVZERO != 0 {
        Cls::Inf
    } else {
        Cls::Exact
    };
    ctx.seen(oi, dd::ID, c.mode, cls, true, hash_args(op as u64, &c.args));
    ctx.sample(|| format!("{} -> {}", c.describe(), st_name(st)));
    let open = op == MUL && want.st & INVALID != 0 && !nan && (st == OK || st == INVALID)
        || want.v.is_fin() && dd::vparts(dd::split(&want.v)).0.is_inf();
    // an operand handed through by add keeps all its bits: nothing is rounded
    let w = if matches!(op, ADD | SUB | MUL) && !nan && want.st & (INVALID | DIVZERO) == 0 { OK } else { want.st };
    if !open && st != w {
        ctx.fail(&c, &format!("status {} with result {:#x}, expected {}", st_name(st), bits, st_name(w)));
    }
}

/// add, sub, mul of finite non-zero pairs.
fn finite(ctx: &mut Ctx, oi: usize, a: u128, b: u128, mode: u8) {
    let op = OPS[oi];
    let (va, vb) = (dd::value(a), dd::value(b));
    if !va.is_fin() || !vb.is_fin() || !dd::normalised(a) || !dd::normalised(b) {
        return;
    }
    let Some((c, bits, st)) = call(ctx, op, [a, b, 0], mode) else { return };
    let exact = match op {
        ADD => dd::exact_sum(&va, &vb),
        SUB => dd::exact_sum(&va, &vb.negated()),
        _ => match (&va, &vb) {
            (V::Fin { neg: x, m: am, e: ae }, V::Fin { neg: y, m: bm, e: be }) => V::Fin { neg: x != y, m: am.mul(bm), e: ae + be },
            _ => unreachable!(),
        },
    };
    let (hi, lo) = dd::vparts(bits);
    let got = dd::value(bits);
    let is_exact = got.is_finite() && {
        let d = dd::exact_sum(&got, &exact.negated());
        !d.is_fin() && !(got.is_fin() ^ exact.is_fin())
    };
    // may a part, or a product of parts, come near the subnormal range?
    let low = |b: u128| {
        let (h, l) = dd::vparts(b);
        if l.is_zero() { top(&h) } else { top(&l) }
    };
    let tiny = if op == MUL { low(a) + low(b) < -950 } else { low(a).min(low(b)) < -960 };
    let cls = if hi.is_inf() {
        Cls::OvfInf
    } else if got.is_fin() && top(&got) > 1023 {
        Cls::OvfMax
    } else if is_exact {
        Cls::Exact
    } else {
        Cls::RoundUp
    };
    ctx.seen(oi, dd::ID, mode, cls, true, hash_args(op as u64, &[a, b]));
    ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), bits, st_name(st)));
    let mut bad = |w: &str| {
        let m = format!("status {} with result {:#x}: {}", st_name(st), bits, w);
        ctx.fail(&c, &m);
    };
    if st & !(OVERFLOW | UNDERFLOW | INEXACT) != 0 {
        bad("nothing about finite operands is invalid or a division by zero");
    }
    if st & (OVERFLOW | UNDERFLOW) != 0 && st & INEXACT == 0 {
        bad("overflow and underflow are inexact");
    }
    if hi.is_nan() || lo.is_nan() {
        bad("not a number from finite operands");
    }
    if (hi.is_inf() != (st & OVERFLOW != 0)) && mode == model::RNE {
        bad("in round-to-nearest exactly the infinite results overflow");
    }
    if hi.is_inf() && st & OVERFLOW == 0 {
        bad("an infinite result of finite operands is an overflow");
    }
    if !tiny && st & UNDERFLOW != 0 {
        bad("underflow well above the subnormal range");
    }
    // INEXACT: never missing unless documented slack (see DESIGN).
    let slack = match op {
        // what may be missing unsaid is the product of the low parts, which is left out
        MUL => {
            let (l, m) = (dd::vparts(a).1, dd::vparts(b).1);
            l.is_fin() && m.is_fin() && got.is_finite() && {
                let d = dd::exact_sum(&exact, &got.negated());
                model::cmp(&d, &mon::pairs::product(&l, &m)) == Some(std::cmp::Ordering::Equal)
            }
        }
        // of a sum, what goes when the low parts cancel the error of the sum of the high ones
        _ => {
            lo.is_zero() && !lo.neg() && {
                let (h, k) = (dd::vparts(a).0, dd::vparts(b).0);
                let sum = model::finish(&model::DOUBLE, &model::add(&model::DOUBLE, &h, &if op == SUB { k.negated() } else { k }), mode);
                sum.v == hi
            }
        }
    };
    if !is_exact && st & INEXACT == 0 {
        if slack {
            ctx.note("lossy results reported OK in the cases left open", 1);
        } else {
            let m = format!("status {} with result {:#x}: the result is not exact", st_name(st), bits);
            ctx.fail(&c, &m);
        }
    }
    if is_exact {
        ctx.note(if st & INEXACT != 0 { "exact results reported INEXACT" } else { "exact results reported OK" }, 1);
    }
}

fn pair(r: &mut mon::rng::Rng) -> (u128, u128) {
    match r.below(8) {
        0 | 1 => dd::near_top(r),
        2 => {
            let a = dd::finite_in(r, 1020, 1023);
            (a, dd::finite_in(r, 1020, 1023))
        }
        3 => {
            let e = r.range(300, 700);
            let a = dd::finite_in(r, e, e);
            (a, dd::finite_in(r, 1020 - e, 1024 - e))
        }
        4 => {
            let e = r.range(-1022, -700);
            let a = dd::finite_in(r, e, e);
            (a, dd::finite_in(r, -1022, -700))
        }
        5 => {
            // doubles
            let a = gen::finite_in(r, &dd::D, -300, 300);
            let e = model::decode(&dd::D, a).ilogb();
            (a, gen::finite_in(r, &dd::D, e - 60, e + 60))
        }
        _ => dd::pair(r),
    }
}

fn chunk(ctx: &mut Ctx) {
    let i = gen::inf(&dd::D, false);
    if ctx.chunk == 0 {
        let base = [0, i, 0x7ff8000000000000, 0x3ff0000000000000u128, 0x1, 0x7fefffffffffffff | 0x7c8ffffffffffffe << 64, 0x3ff0000000000000 | 0xbc90000000000000 << 64];
        let all: Vec<u128> = base.iter().flat_map(|b| [*b, dd::negate(*b)]).collect();
        for a in &all {
            for b in &all {
                for mode in model::MODES {
                    for oi in 0..OPS.len() {
                        if arity(OPS[oi]) == 3 {
                            for c in &all {
                                special(ctx, oi, [*a, *b, *c], mode);
                            }
                        } else {
                            special(ctx, oi, [*a, *b, 0], mode);
                        }
                    }
                    for oi in 0..3 {
                        finite(ctx, oi, *a, *b, mode);
                    }
                }
            }
        }
        return;
    }
    for _ in 0..150 {
        let r = &mut ctx.rng;
        let mut x = [dd::any(r), dd::any(r), dd::any(r)];
        let k = r.below(3) as usize;
        x[k] = dd::special(r);
        for oi in 0..OPS.len() {
            let mode = ctx.rng.below(5) as u8;
            special(ctx, oi, x, mode);
        }
    }
    for _ in 0..600 {
        let (a, b) = pair(&mut ctx.rng);
        let other = 1 + ctx.rng.below(4) as u8;
        for oi in 0..3 {
            finite(ctx, oi, a, b, model::RNE);
            finite(ctx, oi, a, b, other);
        }
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[0, 1, 2], &[dd::ID], &[Exact, RoundUp, OvfInf, OvfMax, NanProp]);
    t.need(&mut v, &[0, 1, 3, 4, 5, 6], &[dd::ID], &[Invalid]);
    t.need(&mut v, &[3], &[dd::ID], &[Inf]);
    t.need_note(&mut v, "exact results reported OK", 10_000);
    v
}

fn main() {
    run("D06", Spec {
        ops: &["add_r", "sub_r", "mul_r", "div_r", "mul_add_r", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down"],
        rule: "an event is the status of one double-double operation, either with a zero, infinite or quiet NaN operand (compared with the 106-bit model) or a sum, difference or product of finite pairs (related to the delivered components and to the exact big-integer result); every event counts as non-trivial",
        quick: 6000,
        thorough: 200_000,
        chunk,
        gate,
        before: nothing,
    })
}
