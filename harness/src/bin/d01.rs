//! D01: double-double special values follow the limits of real arithmetic.
use mon::dd::{self, case2};
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::ops::{self, *};
use mon::run::*;

const OPS: [usize; 10] = [ADD, SUB, MUL, DIV, FMA, FMOD, REM, RTI, NEXT_UP, NEXT_DOWN];

fn one(ctx: &mut Ctx, oi: usize, x: [u128; 3], mode: u8) {
    let op = OPS[oi];
    let v = [dd::to106(x[0]), dd::to106(x[1]), dd::to106(x[2])];
    let n = arity(op);
    if v[..n].iter().all(|v| v.is_fin()) {
        return;
    }
    let want = dd::op106(op, &v[0], &v[1], &v[2], mode);
    let m = if takes_mode(op) { mode } else { NOMODE };
    let c = case2(ops::NAMES[op], m, &x[..n]);
    let Some((bits, cat, neg)) = ctx.sut(&c, || {
        let g = Args { a: dd::sut(x[0]), b: dd::sut(x[1]), c: dd::sut(x[2]), n: 0, mode };
        let (v, _, _) = ops::sut(op, &g, "");
        (v.to_bits(), v.category(), v.is_negative())
    }) else {
        return;
    };
    let cls = match &want.v {
        V::Nan { .. } if v[..n].iter().any(|v| v.is_nan()) => Cls::NanProp,
        V::Nan { .. } => Cls::Invalid,
        V::Inf(_) => Cls::Inf,
        V::Zero(_) => Cls::ZeroExact,
        _ => Cls::Exact,
    };
    ctx.seen(oi, dd::ID, m, cls, true, hash_args(op as u64, &c.args));
    ctx.sample(|| format!("{} -> {:#x}", c.describe(), bits));
    // Adding zero leaves the other operand alone, bit for bit.
    if op == ADD || op == SUB {
        let y = if op == SUB { dd::negate(x[1]) } else { x[1] };
        let unchanged = match (&v[0], &v[1]) {
            (V::Fin { .. }, V::Zero(_)) => Some(x[0]),
            (V::Zero(_), V::Fin { .. }) => Some(y),
            _ => None,
        };
        if let Some(u) = unchanged {
            if bits != u {
                ctx.fail(&c, &format!("adding a zero gives {:#x}, not the other operand {:#x}", bits, u));
            }
            return;
        }
    }
    let (hi, lo) = dd::vparts(bits);
    let ok = match &want.v {
        V::Nan { .. } => hi.is_nan() && cat == Category::NaN,
        V::Inf(s) => hi == V::Inf(*s) && lo.is_zero() && cat == Category::Infinity && neg == *s,
        V::Zero(s) => {
            // a sum of two zeros of opposite sign may take either
            let free = (op == ADD || op == SUB) && want.cls == Cls::ZeroExact && v[0].neg() != (v[1].neg() != (op == SUB));
            hi.is_zero() && lo.is_zero() && cat == Category::Zero && (free || hi.neg() == *s && neg == *s)
        }
        w => {
            // a 106-bit value above the largest pair becomes infinite when split
            let inf = dd::vparts(dd::split(w)).0.is_inf();
            neg == w.neg() && if inf { hi.is_inf() && cat == Category::Infinity } else { hi.is_fin() && cat == Category::Normal }
        }
    };
    if !ok {
        ctx.fail(&c, &format!("got {:#x} ({:?}, negative {}), expected {:x?}", bits, cat, neg, want.v));
    }
}

/// Scaling, fraction extraction, negation and text of specials.
fn unary(ctx: &mut Ctx, x: u128) {
    let v = dd::value(x);
    if v.is_fin() {
        return;
    }
    let n = (ctx.rng.u64() as i32) >> ctx.rng.below(32);
    let mode = ctx.rng.below(5) as u8;
    let c = case2("scalbn_r/frexp_r/neg of a special value", mode, &[x, n as u32 as u128]);
    let r = ctx.sut(&c, || {
        let a = dd::sut(x);
        let mut e = 0;
        let s = a.scalbn_r(n, rm(mode)).to_bits();
        let f = a.frexp_r(&mut e, rm(mode)).to_bits();
        (s, f, e, (-a).to_bits(), a.ilogb())
    });
    let Some((s, f, e, neg, il)) = r else { return };
    ctx.seen(10, dd::ID, mode, model::vcls(&dd::D, &v), true, hash_args(0, &c.args));
    let same = |b: u128, w: &V| match (dd::value(b), w) {
        (V::Nan { .. }, V::Nan { .. }) => true,
        (a, b) => a == *b,
    };
    let we = match v {
        V::Nan { .. } => (i32::MIN, i32::MIN),
        V::Inf(_) => (i32::MAX, i32::MAX),
        _ => (0, i32::MIN + 1),
    };
    if !same(s, &v) || !same(f, &v) || !same(neg, &v.negated()) || (e, il) != we {
        ctx.fail(&c, &format!("scaled {:#x}, fraction {:#x} exponent {}, negated {:#x}, ilogb {}", s, f, e, neg, il));
    }
}

fn chunk(ctx: &mut Ctx) {
    let z = 0u128;
    let i = mon::gen::inf(&dd::D, false);
    let one_ = 0x3ff0000000000000u128;
    let base = [z, i, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff0000000000abc, one_, 0x1, 0x7fefffffffffffff | 0x7c8ffffffffffffe << 64, 0x3ff0000000000000 | 0xbc90000000000000 << 64];
    if ctx.chunk == 0 {
        // every combination of the basic classes and signs
        let all: Vec<u128> = base.iter().flat_map(|b| [*b, dd::negate(*b)]).collect();
        for a in &all {
            for b in &all {
                for c in &all {
                    for mode in model::MODES {
                        one(ctx, 4, [*a, *b, *c], mode);
                    }
                }
                for oi in [0, 1, 2, 3, 5, 6] {
                    for mode in model::MODES {
                        one(ctx, oi, [*a, *b, 0], mode);
                    }
                }
            }
            for oi in [7, 8, 9] {
                for mode in model::MODES {
                    one(ctx, oi, [*a, 0, 0], mode);
                }
            }
            unary(ctx, *a);
        }
        return;
    }
    for _ in 0..300 {
        let r = &mut ctx.rng;
        let mut x = [dd::any(r), dd::any(r), dd::any(r)];
        let k = r.below(3) as usize;
        x[k] = dd::special(r);
        let k = r.below(3) as usize;
        if r.chance(1, 3) {
            x[k] = dd::special(r);
        }
        for oi in 0..OPS.len() {
            for mode in model::MODES {
                one(ctx, oi, x, mode);
            }
        }
        unary(ctx, x[0]);
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[0, 1, 2, 3, 4, 5, 6], &[dd::ID], &[NanProp, Invalid, ZeroExact]);
    t.need(&mut v, &[0, 1, 2, 3, 4], &[dd::ID], &[Inf]);
    t.need(&mut v, &[0, 1, 4, 5, 6], &[dd::ID], &[Exact]);
    t.need(&mut v, &[7, 8, 9], &[dd::ID], &[NanProp]);
    v
}

fn main() {
    run("D01", Spec {
        ops: &["add_r", "sub_r", "mul_r", "div_r", "mul_add_r", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down", "scaling/fraction/negation"],
        rule: "an event is one double-double operation with at least one zero, infinite or NaN operand, compared in class, sign and components with exact arithmetic on the other operands; every combination of the basic classes and signs, and random ones; every event counts as non-trivial",
        quick: 4500,
        thorough: 200_000,
        chunk,
        gate,
        before: nothing,
    })
}
