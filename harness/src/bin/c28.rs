//! C28: rounding modes bracket the exact value; rounding is monotonic.
//! No reference arithmetic here: only relations between observed results.
use mon::fp::*;
use mon::model::{self, Cls, Fmt};
use mon::ops::{self, *};
use mon::run::*;
use mon::{by_fmt, gen};

/// Position of an encoding in value order; infinities (or overflow NaNs of formats without them) are the ends.
fn key(f: &Fmt, b: u128) -> i128 {
    let mag = b & !f.sign_bit() & f.all_mask();
    let k = match mag >> 64 {
        e if f.x87 && e > 0 => e << 63 | mag & ((1 << 63) - 1),
        _ => mag, // x87: exponent 0 with the integer bit set is the same number as exponent 1
    } as i128;
    if b & f.sign_bit() != 0 { -k } else { k }
}
fn nan(f: &Fmt, b: u128) -> bool {
    !f.nanonly && gen::is_nan_bits(f, b)
}

/// Results of one call in the five modes (bits, status), or None on a panic (already reported).
fn five<T: Fp + Conv>(ctx: &mut Ctx, op: usize, a: [u128; 3], n: u128, s: &str) -> Option<[(u128, u32, u128); 5]> {
    let mut out = [(0, 0, 0); 5];
    for m in model::MODES {
        out[m as usize] = one::<T>(ctx, op, a, n, s, m)?;
    }
    Some(out)
}
fn one<T: Fp + Conv>(ctx: &mut Ctx, op: usize, a: [u128; 3], n: u128, s: &str, m: u8) -> Option<(u128, u32, u128)> {
    let c = case(ops::NAMES[op], T::FMT.name, m, &[a[0], a[1], a[2], n]);
    ctx.sut(&c, || {
        let g = Args { a: lv::<T>(a[0]), b: lv2::<T>(a[1]), c: lv3::<T>(a[2]), n, mode: m };
        if op == CONVERT {
            let (x, st, l) = g.a.conv_to((n % NB as u128) as u64, m);
            return (x, st as u32 | (l as u32) << 6, 0);
        }
        let (v, st, x) = ops::sut(op, &g, s);
        (v.to_bits(), st, x)
    })
}

fn bracket_float(ctx: &mut Ctx, f: &Fmt, u: &Fmt, op: usize, c: &Case, r: &[(u128, u32, u128); 5]) {
    let bad = r.iter().any(|x| nan(u, x.0) || op != SCALBN && x.1 & 3 != 0);
    if bad {
        // No number was delivered: that must not depend on the mode.
        let nans = r.iter().filter(|x| model::decode(u, x.0).is_nan()).count();
        let inf = r.iter().filter(|x| model::decode(u, x.0).is_inf()).count();
        if nans != 5 && inf != 5 {
            ctx.fail(c, &format!("some modes deliver a number and some do not: {:x?}", r));
        }
        ctx.note("undefined in every mode", 1);
        return;
    }
    let k: Vec<i128> = r.iter().map(|x| key(u, x.0)).collect();
    let (up, dn, rz) = (k[1], k[2], k[3]);
    let exact = up == dn;
    let cls = if exact { Cls::Exact } else if k[0] == up { Cls::RoundUp } else { Cls::RoundDown };
    ctx.seen(op, f.id, NOMODE, cls, !exact, hash_args(op as u64, &c.args));
    ctx.sample(|| format!("{} -> down {:#x} up {:#x}", c.describe(), r[2].0, r[1].0));
    let fail = |ctx: &mut Ctx, w: &str| ctx.fail(c, &format!("{}: [nearest-even, up, down, toward zero, nearest-away] = {:x?}", w, r));
    if k.iter().any(|x| *x > up || *x < dn) {
        fail(ctx, "a result lies outside the toward-negative/toward-positive bracket");
    } else if up - dn > 1 {
        fail(ctx, "the toward-negative and toward-positive results are not adjacent");
    } else if k[0] != up && k[0] != dn || k[4] != up && k[4] != dn {
        fail(ctx, "a nearest mode returned neither neighbour");
    } else if rz != if up.abs() < dn.abs() { up } else { dn } && !exact {
        fail(ctx, "toward-zero is not the neighbour nearer zero");
    }
    if op != SCALBN {
        for x in r {
            if (x.1 & 16 != 0) == exact {
                fail(ctx, "INEXACT disagrees with whether the directed results differ");
                break;
            }
        }
    }
    if !exact && (up == 0 || dn == 0) {
        ctx.note("brackets touching zero", 1);
    }
    if model::decode(u, r[1].0).is_inf() != model::decode(u, r[2].0).is_inf() {
        ctx.note("brackets touching infinity", 1);
    }
}

fn brackets<T: Fp + Conv>(ctx: &mut Ctx, op: usize) {
    let f = T::FMT;
    let (a, b, c3, n, s) = ops::args_for(&mut ctx.rng, &f, op);
    if op == PARSE {
        ctx.text(&s);
    }
    let c = case(ops::NAMES[op], f.name, NOMODE, &[a, b, c3, n]);
    let r = five::<T>(ctx, op, [a, b, c3], n, &s);
    let Some(r) = r else { return };
    match op {
        PARSE if r[0].2 == 0 => {}
        CONVERT => {
            // only numbers have a place in the order
            if model::decode(&f, a).is_finite() {
                bracket_float(ctx, &f, &model::BUILTIN[(n % NB as u128) as usize], op, &c, &r)
            }
        }
        TO_U | TO_I => {
            let sg = |x: u128| if op == TO_I { x as i128 } else { (x ^ 1 << 127) as i128 };
            if r.iter().any(|x| x.1 & 1 != 0) {
                ctx.note("out of integer range", 1);
                return;
            }
            let k: Vec<i128> = r.iter().map(|x| sg(x.2)).collect();
            ctx.seen(op, f.id, NOMODE, if k[1] == k[2] { Cls::Exact } else { Cls::RoundUp }, k[1] != k[2], hash_args(op as u64, &c.args));
            let ok = k[1] >= k[2] && k[1] - k[2] <= 1 && k.iter().all(|x| *x >= k[2] && *x <= k[1]) && (k[3] == k[1] || k[3] == k[2]);
            let rz = op == TO_U || k[1] == k[2] || k[3] == if k[2] >= 0 { k[2] } else { k[1] };
            if !ok || !rz {
                ctx.fail(&c, &format!("integers do not bracket: {:?}", k));
            }
        }
        RTI => {
            let va = model::decode(&f, a);
            if !va.is_fin() {
                return;
            }
            let k: Vec<i128> = r.iter().map(|x| key(&f, x.0)).collect();
            let x = key(&f, a);
            ctx.seen(op, f.id, NOMODE, if k[1] == k[2] { Cls::Exact } else { Cls::RoundUp }, k[1] != k[2], hash_args(op as u64, &[a]));
            let gap = ctx.sut(&c, || {
                let (u, d) = (lv::<T>(r[1].0), lv::<T>(r[2].0));
                let all = r.iter().all(|x| lv::<T>(x.0).is_integer());
                (all, sv(u.sub_r(d, rm(0))), sv(T::from_u128_r(1, rm(0))).0)
            });
            let Some((all, g, one)) = gap else { return };
            let within = k[2] <= x && x <= k[1] && k.iter().all(|y| *y == k[1] || *y == k[2]);
            let adj = k[1] == k[2] || g == (one, 0);
            let rz = k[3] == if k[1].abs() < k[2].abs() { k[1] } else { k[2] };
            if !all || !within || !adj || (!rz && k[1] != k[2]) {
                ctx.fail(&c, &format!("integral roundings do not bracket: {:x?} (difference {:x?})", r, g));
            }
        }
        _ => bracket_float(ctx, &f, &f, op, &c, &r),
    }
    ctx.no_text();
}

/// Two nearby operands in order (by value), and how the result may move.
fn monotone<T: Fp + Conv>(ctx: &mut Ctx, op: usize, mode: u8) {
    let f = T::FMT;
    let (a, b, c3, n, s) = ops::args_for(&mut ctx.rng, &f, op);
    let fin = |x: u128| model::decode(&f, x).is_finite();
    let ar = arity(op);
    if ar >= 1 && !fin(a) || ar >= 2 && !fin(b) || ar >= 3 && !fin(c3) {
        return;
    }
    // Which operand moves, and the direction the result must follow.
    let which = if ar >= 2 { ctx.rng.below(ar as u64) as usize } else { 0 };
    let neg = |x: u128| model::decode(&f, x).neg();
    let zero = |x: u128| model::decode(&f, x).is_zero();
    let mut lo = [a, b, c3];
    let mut hi = lo;
    if ar >= 1 {
        let moved = match ctx.rng.below(4) {
            0 | 1 => gen::nudge(&mut ctx.rng, &f, lo[which], 2),
            2 => gen::nudge(&mut ctx.rng, &f, lo[which], 40),
            _ => gen::finite(&mut ctx.rng, &f),
        };
        if !fin(moved) {
            return;
        }
        hi[which] = moved;
        if key(&f, lo[which]) > key(&f, moved) {
            std::mem::swap(&mut lo, &mut hi);
        }
    }
    let rising = match (op, which) {
        (ADD, _) | (FMA, 2) | (SUB, 0) => true,
        (SUB, _) => false,
        (MUL, w) => !neg(lo[1 - w]),
        (FMA, w) => !neg(lo[1 - w]),
        (DIV, 0) => {
            if zero(b) {
                return;
            }
            !neg(b)
        }
        (DIV, _) => {
            // the divisor must not cross zero
            if zero(lo[1]) || zero(hi[1]) || neg(lo[1]) != neg(hi[1]) {
                return;
            }
            neg(a)
        }
        _ => true,
    };
    let c = case(ops::NAMES[op], f.name, mode, &[lo[0], lo[1], lo[2], hi[which]]);
    let (x, y, u);
    match op {
        FROM_U | FROM_I => {
            let d = if ctx.rng.bool() { 1 + ctx.rng.below(3) as u128 } else { gen::pattern(&mut ctx.rng, 120) };
            let m = if op == FROM_U { n.checked_add(d) } else { (n as i128).checked_add(d as i128).map(|v| v as u128) };
            let Some(m) = m else { return };
            x = one::<T>(ctx, op, lo, n, "", mode);
            y = one::<T>(ctx, op, hi, m, "", mode);
            u = f;
        }
        SCALBN => {
            // more factors of two: larger magnitude
            let k = (n as i32).clamp(-40000, 40000);
            let d = ctx.rng.below(4) as i32;
            let r1 = one::<T>(ctx, op, lo, k as u32 as u128, "", mode);
            let r2 = one::<T>(ctx, op, lo, (k + d) as u32 as u128, "", mode);
            let (Some(r1), Some(r2)) = (r1, r2) else { return };
            let (k1, k2) = (key(&f, r1.0), key(&f, r2.0));
            if k1.abs() > k2.abs() {
                ctx.fail(&c, &format!("scaling by 2^{} gives {:#x}, by 2^{} gives the smaller {:#x}", k, r1.0, k + d, r2.0));
            }
            x = Some(r1);
            y = one::<T>(ctx, op, hi, k as u32 as u128, "", mode);
            u = f;
        }
        PARSE => {
            // one more unit in some decimal place
            let (mut d, e) = gen::boundary_decimal(&mut ctx.rng, &f);
            let i = ctx.rng.below(d.len() as u64) as usize;
            if d.len() > 1500 && !ctx.rng.chance(1, 6) {
                return;
            }
            let t1 = gen::spell_decimal(&mut ctx.rng, false, &d, e);
            if d[i] == 9 {
                return;
            }
            d[i] += 1;
            let t2 = gen::spell_decimal(&mut ctx.rng, false, &d, e);
            ctx.text(&t1);
            x = one::<T>(ctx, op, lo, 0, &t1, mode);
            ctx.text(&t2);
            y = one::<T>(ctx, op, lo, 0, &t2, mode);
            u = f;
        }
        CONVERT => {
            x = one::<T>(ctx, op, lo, n, "", mode);
            y = one::<T>(ctx, op, hi, n, "", mode);
            u = model::BUILTIN[(n % NB as u128) as usize];
        }
        _ => {
            x = one::<T>(ctx, op, lo, n, &s, mode);
            y = one::<T>(ctx, op, hi, n, &s, mode);
            u = f;
        }
    }
    let (Some(x), Some(y)) = (x, y) else {
        ctx.no_text();
        return;
    };
    let (kx, ky) = match op {
        TO_I => (x.2 as i128, y.2 as i128),
        TO_U => ((x.2 ^ 1 << 127) as i128, (y.2 ^ 1 << 127) as i128),
        _ => {
            if nan(&u, x.0) || nan(&u, y.0) || op != SCALBN && (x.1 | y.1) & 3 != 0 {
                return ctx.no_text();
            }
            (key(&u, x.0), key(&u, y.0))
        }
    };
    ctx.seen(32 + (op == CONVERT || op == PARSE) as usize, f.id, mode, if kx == ky { Cls::Tie } else { Cls::RoundUp }, kx != ky, hash_args(op as u64, &c.args));
    ctx.note("monotone pairs", 1);
    if if rising { kx > ky } else { kx < ky } {
        ctx.fail(&c, &format!("operand {} rose from {:#x} to {:#x}, but the result went from {:x?} to {:x?}", which, lo[which], hi[which], x, y));
    }
    ctx.no_text();
}

const B_OPS: [usize; 12] = [ADD, SUB, MUL, DIV, FMA, RTI, SCALBN, CONVERT, FROM_U, FROM_I, TO_U, TO_I];

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        for i in 0..60 {
            for op in B_OPS {
                brackets::<T>(ctx, op);
                for mode in model::MODES {
                    monotone::<T>(ctx, op, mode);
                }
            }
            if i % 12 == 0 || T::FMT.emax < 300 {
                brackets::<T>(ctx, PARSE);
                let m = ctx.rng.below(5) as u8;
                monotone::<T>(ctx, PARSE, m);
            }
            // stepping is strictly monotonic
            let a = gen::finite(&mut ctx.rng, &T::FMT);
            let f = T::FMT;
            for op in [NEXT_UP, NEXT_DOWN] {
                if let Some(r) = one::<T>(ctx, op, [a, 0, 0], 0, "", 0) {
                    let d = key(&f, r.0) - key(&f, a);
                    let c = case(ops::NAMES[op], f.name, NOMODE, &[a]);
                    ctx.seen(op, f.id, NOMODE, Cls::Exact, true, hash_args(op as u64, &[a]));
                    if d != if op == NEXT_UP { 1 } else { -1 } {
                        ctx.fail(&c, &format!("stepped by {} places, to {:#x}", d, r.0));
                    }
                }
            }
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[ADD, SUB, MUL, DIV, FMA, FROM_U, FROM_I, CONVERT, SCALBN, PARSE], &all, &[Exact, RoundUp]);
    t.need(&mut v, &[ADD, SUB, MUL, DIV, FMA, FROM_U, FROM_I], &all, &[RoundDown]);
    t.need(&mut v, &[RTI, TO_U, TO_I], &all, &[Exact, RoundUp]);
    t.need(&mut v, &[32, 33], &all, &[Tie, RoundUp]);
    t.need_note(&mut v, "monotone pairs", 100_000);
    t.need_note(&mut v, "brackets touching zero", 1000);
    t.need_note(&mut v, "brackets touching infinity", 1000);
    v
}

const NAMES34: [&str; 34] = {
    let mut a = ["monotone pair"; 34];
    let mut i = 0;
    while i < 32 {
        a[i] = ops::NAMES[i];
        i += 1;
    }
    a[33] = "monotone pair (conversion, parsing)";
    a
};

fn main() {
    run("C28", Spec {
        ops: &NAMES34,
        rule: "an event is one operation observed under all five modes on the same operands and checked for bracketing (toward-negative <= others <= toward-positive, equal or adjacent; toward-zero nearer zero; nearest modes among the two; INEXACT iff they differ), or one ordered pair of operands observed under one mode and checked for monotonicity; no reference arithmetic is used; non-trivial = the directed results (or the two results) differ",
        quick: 8 * 2500,
        thorough: 8 * 60000,
        chunk,
        gate,
        before: nothing,
    })
}
