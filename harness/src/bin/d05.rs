//! D05: double-double ordering, sign, queries and scaling act on the pair value.
use mon::big::Big;
use mon::dd;
use mon::fp::*;
use mon::gen;
use mon::model::{self, Class, Cls, V};
use mon::run::*;
use rustc_apfloat::ppc::DoubleDouble as DD;
use std::cmp::Ordering;

fn kind(o: Option<Ordering>, a: &V, b: &V) -> Cls {
    match o {
        None => Cls::NanProp,
        _ if a.is_inf() || b.is_inf() => Cls::Inf,
        _ if a.is_zero() || b.is_zero() => Cls::ZeroExact,
        Some(Ordering::Equal) => Cls::Tie,
        Some(Ordering::Less) => Cls::RoundDown,
        Some(Ordering::Greater) => Cls::RoundUp,
    }
}

fn order(ctx: &mut Ctx, a: u128, b: u128) {
    let (va, vb) = (dd::value(a), dd::value(b));
    let o = model::cmp(&va, &vb);
    let cls = kind(o, &va, &vb);
    let nt = nontriv(cls);
    let c = dd::case2("partial_cmp", NOMODE, &[a, b]);
    let (lt, gt, eq) = (o == Some(Ordering::Less), o == Some(Ordering::Greater), o == Some(Ordering::Equal));
    ev_eq(ctx, 0, dd::ID, &c, cls, nt, &(o, eq, !eq, lt, lt || eq, gt, gt || eq), || {
        let (x, y) = (dd::sut(a), dd::sut(b));
        (x.partial_cmp(&y), x == y, x != y, x < y, x <= y, x > y, x >= y)
    });
    let c = dd::case2("bitwise_eq", NOMODE, &[a, b]);
    ev_eq(ctx, 13, dd::ID, &c, cls, nt, &(a == b), || dd::sut(a).bitwise_eq(dd::sut(b)));
    if va.is_fin() && vb.is_fin() {
        let c = dd::case2("cmp_abs_normal", NOMODE, &[a, b]);
        ev_eq(ctx, 1, dd::ID, &c, cls, nt, &model::cmp_mag(&va, &vb), || dd::sut(a).cmp_abs_normal(dd::sut(b)));
    }
    for (op, name, less, nums) in [(2, "min", true, true), (3, "max", false, true), (4, "minimum", true, false), (5, "maximum", false, false)] {
        let c = dd::case2(name, NOMODE, &[a, b]);
        let want = match (va.is_nan(), vb.is_nan()) {
            (true, true) => [a, b],
            (true, false) => [if nums { b } else { a }; 2],
            (false, true) => [if nums { a } else { b }; 2],
            _ => match o.unwrap() {
                Ordering::Equal if va.is_zero() && va.neg() != vb.neg() && !nums => [if va.neg() == less { a } else { b }; 2],
                Ordering::Equal => [a, b],
                o => [if (o == Ordering::Less) == less { a } else { b }; 2],
            },
        };
        let Some(got) = ctx.sut(&c, || {
            let (x, y) = (dd::sut(a), dd::sut(b));
            match op {
                2 => x.min(y),
                3 => x.max(y),
                4 => x.minimum(y),
                _ => x.maximum(y),
            }
            .to_bits()
        }) else { continue };
        ctx.seen(op, dd::ID, NOMODE, cls, nt, hash_args(op as u64, &[a, b]));
        let ok = if va.is_nan() && (vb.is_nan() || !nums) || vb.is_nan() && !nums { dd::value(got).is_nan() } else { want.contains(&got) };
        if !ok {
            ctx.fail(&c, &format!("got {:#x}, expected {:x?}", got, want));
        }
    }
}

/// Same value, same sign (also of zeros and NaNs).
fn same(b: u128, v: &V) -> bool {
    let w = dd::value(b);
    if v.is_nan() || w.is_nan() {
        return v.is_nan() && w.is_nan() && v.neg() == w.neg();
    }
    w.neg() == v.neg() && model::cmp(&w, v) == Some(Ordering::Equal) && dd::normalised(b)
}

fn signs(ctx: &mut Ctx, a: u128, b: u128) {
    let (va, vb) = (dd::value(a), dd::value(b));
    let cls = if va.is_fin() { Cls::Exact } else { model::vcls(&dd::D, &va) };
    let with = |v: &V, neg: bool| if v.neg() == neg { v.clone() } else { v.negated() };
    for (op, name, want) in [(6, "neg", va.negated()), (7, "abs", with(&va, false)), (8, "copy_sign", with(&va, vb.neg()))] {
        let c = dd::case2(name, NOMODE, &[a, b]);
        let Some((g, back)) = ctx.sut(&c, || {
            let (x, y) = (dd::sut(a), dd::sut(b));
            let z = match op {
                6 => -x,
                7 => x.abs(),
                _ => x.copy_sign(y),
            };
            (z.to_bits(), (-z).to_bits())
        }) else { continue };
        ctx.seen(op, dd::ID, NOMODE, cls, nontriv(cls), hash_args(op as u64, &c.args));
        ctx.sample(|| format!("{} -> {:#x}", c.describe(), g));
        if !same(g, &want) {
            ctx.fail(&c, &format!("got {:#x}, whose value is not the one asked for", g));
        }
        if !same(back, &want.negated()) {
            ctx.fail(&c, &format!("negating the answer {:#x} gives {:#x}", g, back));
        }
    }
}

fn queries(ctx: &mut Ctx, a: u128) {
    let (h, l) = dd::parts(a);
    let v = dd::value(a);
    let k = model::class(&dd::D, &model::decode(&dd::D, h));
    let fin = v.is_fin() || matches!(k, Class::Sub | Class::Normal);
    let sub = |b: u128| model::class(&dd::D, &model::decode(&dd::D, b)) == Class::Sub;
    let den = fin && (sub(h) || sub(l) || !dd::normalised(a));
    let n = h >> 63 != 0;
    let zero = k == Class::Zero;
    let inf = k == Class::Inf;
    let nan = matches!(k, Class::Qnan | Class::Snan);
    // magnitudes of the extremes, by value
    let is = |m: u128, e: i64| match &v {
        V::Fin { .. } => fin && model::cmp_mag(&v, &V::Fin { neg: false, m: Big::from_u128(m), e }) == Ordering::Equal,
        _ => false,
    };
    let ilogb = match k {
        Class::Zero => i32::MIN + 1,
        Class::Inf => i32::MAX,
        Class::Qnan | Class::Snan => i32::MIN,
        _ => model::decode(&dd::D, h).ilogb() as i32,
    };
    let want = [
        n, zero, fin || zero, fin && !den, den, inf, nan, k == Class::Snan, !zero, fin, zero && !n, zero && n, inf && !n, inf && n,
        is(1, -1074), is(1, -969), is((1u128 << 106) - (1u128 << 52) - 1, 918), model::is_integer(&v),
    ];
    const NAMES: [&str; 18] = [
        "is_negative", "is_zero", "is_finite", "is_normal", "is_denormal", "is_infinite", "is_nan", "is_signaling", "is_non_zero", "is_finite_non_zero",
        "is_pos_zero", "is_neg_zero", "is_pos_infinity", "is_neg_infinity", "is_smallest", "is_smallest_normalized", "is_largest", "is_integer",
    ];
    let c = dd::case2("queries", NOMODE, &[a]);
    let Some((g, e)) = ctx.sut(&c, || {
        let x = dd::sut(a);
        ([
            x.is_negative(), x.is_zero(), x.is_finite(), x.is_normal(), x.is_denormal(), x.is_infinite(), x.is_nan(), x.is_signaling(), x.is_non_zero(),
            x.is_finite_non_zero(), x.is_pos_zero(), x.is_neg_zero(), x.is_pos_infinity(), x.is_neg_infinity(), x.is_smallest(),
            x.is_smallest_normalized(), x.is_largest(), x.is_integer(),
        ], x.ilogb())
    }) else { return };
    let cls = if den { Cls::SubExact } else if fin { Cls::Exact } else { model::vcls(&dd::D, &v) };
    ctx.seen(9, dd::ID, NOMODE, cls, nontriv(cls), hash_args(9, &c.args));
    for (i, name) in [(14, "smallest"), (15, "smallest normalized"), (16, "largest"), (17, "integers")] {
        if want[i] {
            ctx.note(name, 1);
        }
    }
    for i in 0..18 {
        // (the sign of a zero low part is no part of the value, so the extremes are asked about with +0 only;
        // extremes and integrality are asked of normalised pairs only)
        if g[i] != want[i] && !((14..17).contains(&i) && l == 1 << 63) && (i < 14 || dd::normalised(a)) {
            ctx.fail(&c, &format!("{} answers {}, the value says {}", NAMES[i], g[i], want[i]));
        }
    }
    if e != ilogb {
        ctx.fail(&c, &format!("ilogb answers {}, expected {}", e, ilogb));
    }
}

fn scaling(ctx: &mut Ctx, a: u128, n: i32, mode: u8) {
    let (vh, vl) = dd::vparts(a);
    let v = dd::value(a);
    let c = dd::case2("scalbn_r", mode, &[a, n as u32 as u128]);
    let Some(g) = ctx.sut(&c, || dd::sut(a).scalbn_r(n, rm(mode)).to_bits()) else { return };
    // (beyond any gap of the format, one amount is as good as another)
    let n = (n as i64).clamp(-5000, 5000);
    let sc = |v: &V| match v {
        V::Fin { neg, m, e } => V::Fin { neg: *neg, m: m.clone(), e: e + n },
        v => v.clone(),
    };
    let exact = |v: &V| match sc(v) {
        V::Fin { m, e, .. } => m.trailing_zeros() + e >= -1074,
        _ => true,
    };
    if !v.is_fin() {
        ctx.seen(10, dd::ID, mode, model::vcls(&dd::D, &v), false, hash_args(10, &c.args));
        if !same(g, &v) {
            ctx.fail(&c, &format!("got {:#x} from a special value", g));
        }
    } else if vh.is_fin() && vh.ilogb() + n > 1023 {
        // above the largest pair
        ctx.seen(10, dd::ID, mode, Cls::OvfInf, true, hash_args(10, &c.args));
        if (mode == 0 || mode == 4) && g != dd::join(gen::inf(&dd::D, v.neg()), 0) {
            ctx.fail(&c, &format!("got {:#x}, expected the infinity of the sign", g));
        }
    } else if exact(&vh) && exact(&vl) {
        ctx.seen(10, dd::ID, mode, Cls::Exact, true, hash_args(10, &c.args));
        if !same(g, &sc(&v)) {
            ctx.fail(&c, &format!("got {:#x}, not the scaled value", g));
        }
    } else {
        // part of the value is lost below the double range: bounded by the granularity there
        ctx.seen(10, dd::ID, mode, Cls::SubInexact, true, hash_args(10, &c.args));
        let d = match (sc(&v), dd::value(g).negated()) {
            (a, b @ V::Fin { .. }) => dd::exact_sum(&a, &b),
            (a, _) => a,
        };
        let (gh, gl) = dd::vparts(g);
        if gh.is_zero() && !gl.is_zero() || !gh.is_finite() {
            ctx.fail(&c, &format!("got {:#x}, no value of the format", g));
        } else if dd::top(&d) > -1072 {
            ctx.fail(&c, &format!("got {:#x}, further than two units of the smallest value away", g));
        }
    }
    if mode == 0 {
        let c = dd::case2("scalbn", NOMODE, &[a, n as u32 as u128]);
        let Some(h) = ctx.sut(&c, || dd::sut(a).scalbn(c.args[1] as u32 as i32).to_bits()) else { return };
        if h != g {
            ctx.fail(&c, &format!("got {:#x}, scalbn_r gives {:#x}", h, g));
        }
    }
}

fn frexp(ctx: &mut Ctx, a: u128, mode: u8) {
    let (vh, vl) = dd::vparts(a);
    let v = dd::value(a);
    let c = dd::case2("frexp_r", mode, &[a]);
    let start = ctx.rng.u64() as i32;
    let Some((g, e)) = ctx.sut(&c, || {
        let mut e = start;
        let x = dd::sut(a).frexp_r(&mut e, rm(mode));
        (x.to_bits(), e)
    }) else { return };
    let special = !v.is_fin();
    let k = if vh.is_fin() { vh.ilogb() + 1 } else { 0 };
    // does the low part survive the move
    let kept = special || match &vl {
        V::Fin { m, e, .. } => m.trailing_zeros() + e - k >= -1074,
        _ => true,
    };
    let cls = if special { model::vcls(&dd::D, &v) } else if kept { Cls::Exact } else { Cls::SubInexact };
    ctx.seen(11, dd::ID, mode, cls, nontriv(cls), hash_args(11, &c.args));
    ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), g, e));
    let ok = match &v {
        V::Nan { .. } => dd::value(g).is_nan(),
        V::Zero(_) => g == a && e == 0,
        V::Inf(_) => g == a,
        V::Fin { neg, m, e: q } => {
            let (gh, _) = dd::vparts(g);
            e as i64 == k && gh.is_fin() && gh.ilogb() == -1 && (!kept || same(g, &V::Fin { neg: *neg, m: m.clone(), e: q - k }))
        }
    };
    if !ok {
        ctx.fail(&c, &format!("got {:#x} and exponent {}", g, e));
    }
}

fn pair(ctx: &mut Ctx) -> (u128, u128) {
    let r = &mut ctx.rng;
    match r.below(12) {
        0 => (dd::any(r), dd::any(r)),
        1 => (dd::special(r), dd::special(r)),
        2 => {
            let a = dd::any(r);
            (a, a)
        }
        3 => {
            // the low parts differ in the sign of zero
            let h = dd::parts(dd::finite(r)).0;
            (dd::join(h, 0), dd::join(h, 1 << 63))
        }
        4 | 5 => {
            let a = dd::finite(r);
            let b = dd::near(r, a);
            if r.bool() { (a, dd::negate(b)) } else { (a, b) }
        }
        6 | 7 => {
            // equal high parts
            let h = dd::parts(dd::finite(r)).0;
            let (l, m) = (dd::low_for(r, h), dd::low_for(r, h));
            let s = (r.below(2) as u128) << 63;
            let b = dd::join(h, m);
            (dd::join(h, l), if s != 0 { dd::negate(b) } else { b })
        }
        8 => {
            // neighbouring high parts whose low parts point at each other
            let h = dd::parts(dd::finite(r)).0;
            let i = gen::nudge(r, &dd::D, h, 1);
            let (l, m) = (dd::low_for(r, h), dd::low_for(r, i));
            (dd::join(h, l), dd::join(i, m))
        }
        _ => dd::pair(r),
    }
}

fn chunk(ctx: &mut Ctx) {
    for _ in 0..300 {
        let (a, b) = pair(ctx);
        order(ctx, a, b);
        order(ctx, b, a);
        signs(ctx, a, b);
        queries(ctx, a);
        queries(ctx, b);
        let r = &mut ctx.rng;
        // unnormalised pairs, integers, neighbours of the extremes
        let x = match r.below(6) {
            0 => {
                let (h, l) = (gen::any(r, &dd::D), gen::any(r, &dd::D));
                if model::decode(&dd::D, l).is_finite() { dd::join(h, l) } else { dd::join(h, 0) }
            }
            1 => {
                // a low part at or just over half an ulp
                let h = gen::finite_in(r, &dd::D, -900, 1000);
                let k = model::decode(&dd::D, h).ilogb() - 53;
                let l = gen::with_exp(&dd::D, r.bool(), k, 0);
                let l = gen::nudge(r, &dd::D, l, 2);
                dd::join(h, l)
            }
            2 => {
                let e = r.range(0, 130);
                let m = gen::pattern(r, 106) | 1;
                dd::split(&V::Fin { neg: r.bool(), m: Big::from_u128(m), e: e - 106 })
            }
            3 => {
                // extremes
                let s = (r.below(2) as u128) << 63;
                let (h, l) = [(1, 0), (1 << 52, 0), (0x0360_0000_0000_0000, 0), (0x7fef_ffff_ffff_ffff, 0x7c8f_ffff_ffff_fffe), (0x7fef_ffff_ffff_ffff, 0),
                    (0x0360_0000_0000_0000, 1), (0x7fef_ffff_ffff_ffff, 0x7c8f_ffff_ffff_fffd), (0x7fef_ffff_ffff_ffff, 0xfc8f_ffff_ffff_ffff), (2, 0)][r.below(9) as usize];
                dd::join(h ^ s, if l == 0 { 0 } else { l ^ s })
            }
            4 => {
                let e = r.range(-1074, -900);
                dd::finite_in(r, e, e)
            }
            _ => {
                // low part subnormal
                let e = r.range(-1021, -950);
                let h = gen::finite_in(r, &dd::D, e, e);
                let l = gen::pattern(r, 52) >> r.below(52);
                dd::join(h, l | (r.below(2) as u128) << 63)
            }
        };
        // not-a-pair highs with a low part are asked for their class only
        let v = model::decode(&dd::D, dd::parts(x).0);
        if v.is_fin() || dd::parts(x).1 == 0 {
            queries(ctx, x);
        }
        let x = if dd::normalised(x) { x } else { a };
        signs(ctx, x, b);
        let mode = ctx.rng.below(5) as u8;
        frexp(ctx, a, mode);
        frexp(ctx, x, mode);
        for y in [a, x] {
            let r = &mut ctx.rng;
            let h = dd::vparts(y).0;
            let k = if h.is_fin() { h.ilogb() } else { 0 };
            let n = match r.below(8) {
                0 => r.range(-10, 10),
                1 => r.range(-2200, 2200),
                2 => 1023 - k + r.range(-2, 2),
                3 => -1022 - k + r.range(-2, 2),
                4 => -900 - k + r.range(-80, 80),
                5 => -1074 - k + r.range(-3, 3),
                6 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64 - 1]),
                _ => r.range(-900, 900),
            } as i32;
            for &mode in &model::MODES {
                scaling(ctx, y, n, mode);
            }
        }
    }
}

fn before(ctx: &mut Ctx) {
    let c = dd::case2("constants", NOMODE, &[]);
    let one = |m: u128, e: i64| dd::split(&V::Fin { neg: false, m: Big::from_u128(m), e });
    let largest = dd::join(0x7fef_ffff_ffff_ffff, 0x7c8f_ffff_ffff_fffe);
    let want = (128, 106, 1023, -969, [0, dd::join(gen::inf(&dd::D, false), 0), largest, one(1, -1074), one(1, -969)], true);
    ev_eq(ctx, 12, dd::ID, &c, Cls::Special, true, &want, || {
        (
            DD::BITS,
            DD::PRECISION,
            DD::MAX_EXP,
            DD::MIN_EXP,
            [DD::ZERO.to_bits(), DD::INFINITY.to_bits(), DD::largest().to_bits(), DD::SMALLEST.to_bits(), DD::smallest_normalized().to_bits()],
            DD::NAN.is_nan() && !DD::NAN.is_signaling(),
        )
    });
    for i in 0..2000 {
        let p = if i == 0 { None } else { Some(if i < 70 { 1 << (i & 63) } else { ctx.rng.u128() }) };
        let c = dd::case2("qnan/snan", NOMODE, &[p.unwrap_or(0), p.is_some() as u128]);
        // the high part is the double's NaN of that payload
        let q = model::encode(&dd::D, &model::make_nan(&dd::D, false, p));
        let s = model::encode(&dd::D, &model::make_nan(&dd::D, true, p));
        ev_eq(ctx, 12, dd::ID, &c, Cls::NanProp, true, &(q, s, true, true, false, true), || {
            let (q, s) = (DD::qnan(p), DD::snan(p));
            (q.to_bits(), s.to_bits(), q.is_nan(), s.is_nan(), q.is_signaling(), s.is_signaling())
        });
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let d = [dd::ID];
    t.need(&mut v, &[0, 2, 3, 4, 5], &d, &[RoundUp, RoundDown, Tie, ZeroExact, NanProp, Inf]);
    t.need(&mut v, &[1], &d, &[RoundUp, RoundDown, Tie]);
    t.need(&mut v, &[13], &d, &[RoundUp, RoundDown, Tie, ZeroExact, NanProp, Inf]);
    t.need(&mut v, &[6, 7, 8, 9], &d, &[Exact, ZeroExact, NanProp, Inf]);
    t.need(&mut v, &[9], &d, &[SubExact]);
    t.need(&mut v, &[10], &d, &[Exact, OvfInf, SubInexact, ZeroExact]);
    t.need(&mut v, &[11], &d, &[Exact, ZeroExact, Inf, NanProp]);
    for n in ["smallest", "smallest normalized", "largest", "integers"] {
        t.need_note(&mut v, n, 20);
    }
    v
}

fn main() {
    run("D05", Spec {
        ops: &["compare", "cmp_abs_normal", "min", "max", "minimum", "maximum", "neg", "abs", "copy_sign", "queries", "scalbn_r", "frexp_r", "constants", "bitwise_eq"],
        rule: "an event is one double-double pair compared by all operators, by magnitude or through a min/max variant against the order of the exact component sums; one sign operation, query set, scaling or fraction extraction compared with the exact value; pairs share or neighbour each other's high parts, cancel, or are unnormalised (queries only); classes: tie = equal, inexact-down/up = less/greater, subnormal = denormal pair; non-trivial = finite non-zero operands",
        quick: 4000,
        thorough: 400_000,
        chunk,
        gate,
        before,
    })
}
