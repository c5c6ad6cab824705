//! D07: pairs of any element format obey the rules of double-double, with the element's precision.
use mon::big::Big;
use mon::dd::{exact_sum, top};
use mon::fp::*;
use mon::gen;
use mon::grammar::{self, P};
use mon::model::{self, Class, Cls, V};
use mon::ops::{self, *};
use mon::pairs::{self, lsb, mag, scaled, Pf};
use mon::rng::Rng;
use mon::run::*;
use rustc_apfloat::ppc::DoubleFloat;
use std::cmp::Ordering;

const OVERFLOW: u32 = 4;
const UNDERFLOW: u32 = 8;
const INEXACT: u32 = 16;

/// What is wrong with the answer, if anything.
type Verdict = Result<(), String>;

struct Ev<'a> {
    f: &'a Pf,
    op: usize,
    x: [u128; 3],
    n: u128,
    mode: u8,
    got: (u128, u32, u128),
}

fn bad<R>(s: &str) -> Result<R, String> {
    Err(s.to_string())
}

/// The sign operations and scaling: same value and sign, and a normalised pair.
fn same(f: &Pf, b: u128, v: &V) -> bool {
    let w = f.value(b);
    if v.is_nan() || w.is_nan() {
        return v.is_nan() && w.is_nan() && v.neg() == w.neg();
    }
    w.neg() == v.neg() && model::cmp(&w, v) == Some(Ordering::Equal) && f.normalised(b)
}

/// Addition, subtraction, multiplication of finite non-zero pairs.
fn arithmetic(e: &Ev, notes: &mut Vec<&'static str>) -> (Cls, Verdict) {
    let f = e.f;
    let (d, p) = (&f.d, f.d.p);
    let (va, vb) = (f.value(e.x[0]), f.value(e.x[1]));
    let exact = match e.op {
        ADD => exact_sum(&va, &vb),
        SUB => exact_sum(&va, &vb.negated()),
        _ => pairs::product(&va, &vb),
    };
    let st = e.got.1;
    let bits = e.got.0;
    let got = f.value(bits);
    let (hi, lo) = f.vparts(bits);
    let rne = e.mode == model::RNE;
    let heads = f.low_zero(e.x[0]) && f.low_zero(e.x[1]);
    let high = top(&exact) > d.emax || top(&va).max(top(&vb)) > d.emax;
    let diff = if got.is_finite() { exact_sum(&got, &exact.negated()) } else { V::Zero(false) };
    let is_exact = got.is_finite() && !diff.is_fin() && got.is_fin() == exact.is_fin();
    let cls = if got.is_inf() {
        Cls::OvfInf
    } else if !exact.is_fin() {
        Cls::ZeroExact
    } else if high {
        Cls::OvfMax
    } else if is_exact {
        Cls::Exact
    } else {
        Cls::RoundUp
    };
    let judge = || -> Verdict {
        if st & !(OVERFLOW | UNDERFLOW | INEXACT) != 0 {
            return bad("finite operands are neither invalid nor a division by zero");
        }
        if st & (OVERFLOW | UNDERFLOW) != 0 && st & INEXACT == 0 {
            return bad("overflow and underflow are inexact");
        }
        if hi.is_nan() || lo.is_nan() || lo.is_inf() {
            return bad("no number from finite operands");
        }
        if hi.is_inf() != (st & OVERFLOW != 0) && (rne || hi.is_inf()) {
            return bad("overflow is reported with infinite results, in round-to-nearest only with them");
        }
        let slack = match e.op {
            // what is missing is the product of the low parts, which is left out
            MUL => {
                let (l, m) = (f.vparts(e.x[0]).1, f.vparts(e.x[1]).1);
                l.is_fin() && m.is_fin() && model::cmp(&diff.negated(), &pairs::product(&l, &m)) == Some(Ordering::Equal)
            }
            _ => {
                lo.is_zero() && !lo.neg() && {
                    let (h, k) = (f.vparts(e.x[0]).0, f.vparts(e.x[1]).0);
                    let k = if e.op == SUB { k.negated() } else { k };
                    model::finish(d, &model::add(d, &h, &k), e.mode).v == hi
                }
            }
        };
        if !is_exact && !slack && st & INEXACT == 0 {
            return bad("the result is not exact");
        }
        let low = |b: u128| {
            let (h, l) = f.vparts(b);
            if l.is_zero() { top(&h) } else { top(&l) }
        };
        // parts, and (for products) products of parts, well above the subnormal range
        let margin = d.emin + 3 * p + 4;
        let clear = if e.op == MUL { low(e.x[0]) + low(e.x[1]) > margin } else { low(e.x[0]).min(low(e.x[1])) > margin };
        if clear && st & UNDERFLOW != 0 {
            return bad("underflow well above the subnormal range");
        }
        if high && !rne {
            return Ok(());
        }
        let tail = e.op != MUL || top(&exact) - 2 * p - 4 > d.qmin();
        if exact.is_fin() && top(&exact) > d.emax + 1 {
            return if got.is_inf() && got.neg() == exact.neg() && lo.is_zero() { Ok(()) } else { bad("not infinite above the range") };
        }
        if !got.is_finite() {
            let edge = V::Fin { neg: false, m: Big::from_u128((1u128 << (p - 2)) - 1), e: d.emax + 3 - p };
            if !(got.is_inf() && lo.is_zero() && exact.is_fin() && got.neg() == exact.neg()) {
                return bad("not the infinity of the sign");
            }
            if model::cmp_mag(&exact, &edge) == Ordering::Less {
                return bad("infinite within range");
            }
            return Ok(());
        }
        if rne && !f.normalised(bits) && tail || lo.is_fin() && top(&lo) > top(&hi) - (p - 1) && top(&hi) > d.emin + p {
            return bad("not a normalised pair");
        }
        if e.op == MUL && tail && got.neg() != exact.neg() {
            return bad("a product of the wrong sign");
        }
        if tail && (e.mode == model::RTP || e.mode == model::RTN) && diff.is_fin() {
            let full = !f.low_zero(e.x[0]) && !f.low_zero(e.x[1]);
            if (e.op != MUL || !full) && diff.neg() != (e.mode == model::RTN) {
                return bad("on the wrong side of the exact result");
            }
        }
        let k = if rne { 2 * p - 4 } else { 2 * p - 6 };
        let bound = match e.op {
            // (the error terms of a small product are themselves rounded)
            MUL if tail => scaled(&mag(&exact), -k),
            MUL => exact_sum(&scaled(&mag(&exact), -k), &pairs::power(d.qmin() + 2)),
            _ => scaled(&exact_sum(&mag(&va), &mag(&vb)), -k),
        };
        if diff.is_fin() && model::cmp_mag(&diff, &bound) == Ordering::Greater {
            return Err(format!("off by about 2^{}, more than the bound 2^{}", top(&diff) - 1, top(&bound) - 1));
        }
        if diff.is_fin() && heads && rne && lsb(&exact) >= d.qmin() {
            return bad("operands without low parts must give the exact result");
        }
        Ok(())
    };
    let v = judge();
    notes.push(if is_exact { "exact sums and products" } else { "inexact sums and products" });
    (cls, v)
}

fn standin(e: &Ev) -> (Cls, Verdict) {
    let f = e.f;
    let n = arity(e.op);
    let v = [f.wide(e.x[0]), f.wide(e.x[1]), f.wide(e.x[2])];
    let want = f.standin(e.op, &v[0], &v[1], &v[2], e.mode);
    let nan = v[..n].iter().any(|v| v.is_nan());
    let snan = e.x[..n].iter().any(|b| model::class(&f.d, &f.vparts(*b).0) == Class::Snan);
    let wb = f.split(&want.v);
    let above = want.v.is_fin() && f.value(wb).is_inf();
    let (bits, st) = (e.got.0, e.got.1);
    let cls = if nan { Cls::NanProp } else { want.cls };
    let v = (|| {
        if want.v.is_nan() {
            let (h, l) = f.vparts(bits);
            if !h.is_nan() || !l.is_zero() {
                return bad("not a NaN");
            }
        } else if matches!(e.op, ADD | SUB | MUL) {
            // one of the operands is zero or infinite
            let y = if e.op == SUB { f.negate(e.x[1]) } else { e.x[1] };
            let (h, l) = f.vparts(bits);
            let ok = match (&v[0], &v[1]) {
                (V::Fin { .. }, V::Zero(_)) if e.op != MUL => bits == e.x[0],
                (V::Zero(_), V::Fin { .. }) if e.op != MUL => bits == y,
                (V::Zero(s), V::Zero(t)) if e.op != MUL && *s != (*t != (e.op == SUB)) => h.is_zero() && l.is_zero(),
                _ => h == want.v && l.is_zero(),
            };
            if !ok {
                return bad("not what the limit of real arithmetic gives");
            }
        } else if bits != wb {
            return Err(format!("expected {:#x}", wb));
        }
        let w = if matches!(e.op, ADD | SUB | MUL) && !nan && want.st & 3 == 0 { 0 } else { want.st };
        let open = snan || above || e.op == MUL && want.st & 1 != 0 && !nan && st <= 1;
        if !open && st != w as u32 {
            return Err(format!("expected status {}", st_name(w)));
        }
        Ok(())
    })();
    (cls, v)
}

fn scaling(e: &Ev) -> (Cls, Verdict) {
    let f = e.f;
    let d = &f.d;
    let (vh, vl) = f.vparts(e.x[0]);
    let v = f.value(e.x[0]);
    let g = e.got.0;
    let n = (e.n as i32 as i64).clamp(-5000, 5000);
    let keeps = |v: &V| lsb(v) >= i64::MAX / 8 || lsb(v) + n >= d.qmin();
    if !v.is_fin() {
        return (pairs::cls(d, &v), if same(f, g, &v) { Ok(()) } else { bad("a special value changed") });
    }
    if vh.ilogb() + n > d.emax {
        let nearest = e.mode == model::RNE || e.mode == model::RNA;
        let ok = !nearest || g == f.join(gen::inf(d, v.neg()), 0);
        return (Cls::OvfInf, if ok { Ok(()) } else { bad("not the infinity of the sign") });
    }
    if keeps(&vh) && keeps(&vl) {
        return (Cls::Exact, if same(f, g, &scaled(&v, n)) { Ok(()) } else { bad("not the scaled value") });
    }
    let t = match f.value(g).negated() {
        b @ V::Fin { .. } => exact_sum(&scaled(&v, n), &b),
        _ => scaled(&v, n),
    };
    let (gh, gl) = f.vparts(g);
    let ok = !(gh.is_zero() && !gl.is_zero()) && gh.is_finite() && top(&t) <= d.qmin() + 2;
    (Cls::SubInexact, if ok { Ok(()) } else { bad("further than two units of the smallest value away") })
}

fn fraction(e: &Ev) -> (Cls, Verdict) {
    let f = e.f;
    let (vh, vl) = f.vparts(e.x[0]);
    let v = f.value(e.x[0]);
    let (g, x) = (e.got.0, e.got.2 as u32 as i32);
    let k = if vh.is_fin() { vh.ilogb() + 1 } else { 0 };
    let kept = !vl.is_fin() || lsb(&vl) - k >= f.d.qmin();
    let ok = match &v {
        V::Nan { .. } => f.value(g).is_nan() && x == i32::MIN,
        V::Zero(_) => g == e.x[0] && x == 0,
        V::Inf(_) => g == e.x[0] && x == i32::MAX,
        V::Fin { .. } => {
            let gh = f.vparts(g).0;
            x as i64 == k && gh.is_fin() && gh.ilogb() == -1 && (!kept || same(f, g, &scaled(&v, -k)))
        }
    };
    (if v.is_fin() && !kept { Cls::SubInexact } else { pairs::cls(&f.d, &v) }, if ok { Ok(()) } else { bad("not the fraction") })
}

fn choice(e: &Ev) -> (Cls, Verdict) {
    let f = e.f;
    let (a, b) = (e.x[0], e.x[1]);
    let (va, vb) = (f.value(a), f.value(b));
    let (less, nums) = match e.op {
        MIN => (true, true),
        MAX => (false, true),
        MINIMUM => (true, false),
        _ => (false, false),
    };
    let o = model::cmp(&va, &vb);
    let want = match (va.is_nan(), vb.is_nan()) {
        (true, true) => [a, b],
        (true, false) => [if nums { b } else { a }; 2],
        (false, true) => [if nums { a } else { b }; 2],
        _ => match o.unwrap() {
            Ordering::Equal if va.is_zero() && va.neg() != vb.neg() && !nums => [if va.neg() == less { a } else { b }; 2],
            Ordering::Equal => [a, b],
            o => [if (o == Ordering::Less) == less { a } else { b }; 2],
        },
    };
    let nan = va.is_nan() && (vb.is_nan() || !nums) || vb.is_nan() && !nums;
    let ok = if nan { f.value(e.got.0).is_nan() } else { want.contains(&e.got.0) };
    (order(o), if ok { Ok(()) } else { bad("not the operand asked for") })
}

fn order(o: Option<Ordering>) -> Cls {
    match o {
        None => Cls::NanProp,
        Some(Ordering::Equal) => Cls::Tie,
        Some(Ordering::Less) => Cls::RoundDown,
        Some(Ordering::Greater) => Cls::RoundUp,
    }
}

fn compare(e: &Ev) -> (Cls, Verdict) {
    let f = e.f;
    let (va, vb) = (f.value(e.x[0]), f.value(e.x[1]));
    let o = model::cmp(&va, &vb);
    let code = |o: Option<Ordering>| match o {
        None => 3u128,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    };
    let mut q = code(o) | ((e.x[0] == e.x[1]) as u128) << 2 | ((o == Some(Ordering::Less)) as u128) << 3 | ((o == Some(Ordering::Equal)) as u128) << 4;
    if va.is_fin() && vb.is_fin() {
        q |= (1 + code(Some(model::cmp_mag(&va, &vb)))) << 8;
    }
    // the sign of a zero low part is a bit of the pattern
    (order(o), if e.got.2 == q { Ok(()) } else { Err(format!("expected {:#x}", q)) })
}

fn queries(e: &Ev) -> (Cls, Verdict) {
    let f = e.f;
    let d = &f.d;
    let a = e.x[0];
    let (h, l) = f.parts(a);
    let v = f.value(a);
    let vh = f.vparts(a).0;
    let k = model::class(d, &vh);
    let fin = matches!(k, Class::Sub | Class::Normal);
    let sub = |b: u128| model::class(d, &model::decode(d, b)) == Class::Sub;
    let den = fin && (sub(h) || sub(l) || !f.normalised(a));
    let n = vh.neg();
    let is = |w: &V| v.is_fin() && model::cmp_mag(&v, w) == Ordering::Equal;
    let small = pairs::power(d.qmin());
    let smalln = pairs::power(d.emin + d.p);
    let large = V::Fin { neg: false, m: largest(f), e: d.emax - 2 * d.p + 1 };
    let nan = matches!(k, Class::Qnan | Class::Snan);
    let want = [
        n, k == Class::Zero, fin || k == Class::Zero, fin && !den, den, k == Class::Inf, nan, k == Class::Snan, k != Class::Zero, fin,
        k == Class::Zero && !n, k == Class::Zero && n, k == Class::Inf && !n, k == Class::Inf && n, is(&small), is(&smalln), is(&large), model::is_integer(&v),
    ];
    let il = match k {
        Class::Zero => i32::MIN + 1,
        Class::Inf => i32::MAX,
        Class::Qnan | Class::Snan => i32::MIN,
        _ => vh.ilogb() as i32,
    };
    let cat = match k {
        Class::Inf => Category::Infinity,
        Class::Qnan | Class::Snan => Category::NaN,
        Class::Zero => Category::Zero,
        _ => Category::Normal,
    };
    let cls = if den { Cls::SubExact } else { pairs::cls(d, &v) };
    let q = e.got.2;
    for (i, w) in want.iter().enumerate() {
        if (14..17).contains(&i) && l == d.sign_bit() {
            continue;
        }
        if (q >> i & 1 != 0) != *w {
            return (cls, Err(format!("query {} answers {}", i, !*w)));
        }
    }
    if q >> 20 & 3 != cat as u128 || (q >> 32) as u32 as i32 != il {
        return (cls, bad("category or exponent"));
    }
    (cls, Ok(()))
}

/// The largest value of twice the precision that splits into finite parts: the significand with one hole in the middle.
fn largest(f: &Pf) -> Big {
    let p = f.d.p;
    Big::pow2(2 * p).sub(&Big::pow2(p - 1)).sub(&Big::from_u128(1))
}

fn deliver(f: &Pf, got: (u128, u32), want: &model::Out) -> (Cls, Verdict) {
    let wb = f.split(&want.v);
    let above = want.v.is_fin() && f.value(wb).is_inf();
    let ok = if want.v.is_nan() { f.value(got.0).is_nan() } else { got.0 == wb } && (above || got.1 == want.st as u32);
    (want.cls, if ok { Ok(()) } else { Err(format!("expected {:#x} {}", wb, st_name(want.st))) })
}

fn verdict(e: &Ev, s: &str, notes: &mut Vec<&'static str>) -> (Cls, Verdict) {
    let f = e.f;
    let v = f.value(e.x[0]);
    let sign = |w: V| (pairs::cls(&f.d, &v), if same(f, e.got.0, &w) { Ok(()) } else { bad("not the value asked for") });
    let with = |neg: bool| if v.neg() == neg { v.clone() } else { v.negated() };
    match e.op {
        ADD | SUB | MUL if v.is_fin() && f.value(e.x[1]).is_fin() => arithmetic(e, notes),
        ADD..=NEXT_DOWN => standin(e),
        INVERSE => {
            let want = if v.is_fin() { model::exact_inverse(&f.w, &f.wide(e.x[0])).map(|v| f.split(&v)) } else { None };
            let got = if e.got.2 == 1 { Some(e.got.0) } else { None };
            (if want.is_some() { Cls::Exact } else { Cls::Special }, if got == want { Ok(()) } else { Err(format!("expected {:x?}", want)) })
        }
        SCALBN => scaling(e),
        FREXP => fraction(e),
        NEG => sign(v.negated()),
        ABS => sign(with(false)),
        COPY_SIGN => sign(with(f.value(e.x[1]).neg())),
        MIN | MAX | MINIMUM | MAXIMUM => choice(e),
        FROM_U => deliver(f, (e.got.0, e.got.1), &model::from_int(&f.w, false, e.n, e.mode)),
        FROM_I => {
            let i = e.n as i128;
            deliver(f, (e.got.0, e.got.1), &model::from_int(&f.w, i < 0, i.unsigned_abs(), e.mode))
        }
        TO_U | TO_I => {
            let w = model::to_int(&f.wide(e.x[0]), ops::width(e.n) as u32, e.op == TO_I, e.mode);
            let ok = e.got.2 == w.0 && e.got.1 == w.1 as u32 | (w.2 as u32) << 6;
            (w.3, if ok { Ok(()) } else { Err(format!("expected {:x?}", w)) })
        }
        TEXT => {
            let (p, w, alt) = ops::style(e.n);
            let t = model::display(&f.w, &f.wide(e.x[0]), p, w, alt);
            let cls = if v.is_fin() { Cls::RoundUp } else { Cls::Special };
            if e.got.2 != hash_str(&t) as u128 {
                return (cls, Err(format!("the text is not {:?}", t)));
            }
            let want = match grammar::parse(&t) {
                P::Nan { .. } => return (cls, if f.value(e.got.0).is_nan() { Ok(()) } else { bad("the text read back as a number") }),
                P::Reject => return (cls, bad("unreadable text")),
                q => model::finish(&f.w, &grammar::exact(&f.w, &q), e.mode),
            };
            let (_, r) = deliver(f, (e.got.0, e.got.1), &want);
            if p.unwrap_or(0) == 0 && e.mode == 0 && !v.is_nan() && e.got.0 != f.split(&f.wide(e.x[0])) {
                return (cls, bad("the text does not read back as the value"));
            }
            (cls, r)
        }
        PARSE => match grammar::parse(s) {
            P::Reject => (Cls::Special, if e.got.2 == 0 { Ok(()) } else { bad("accepted") }),
            _ if e.got.2 != 1 => (Cls::Special, bad("rejected")),
            P::Nan { neg, .. } => (Cls::NanProp, if f.value(e.got.0).is_nan() && f.value(e.got.0).neg() == neg { Ok(()) } else { bad("not a NaN of the sign") }),
            q => deliver(f, (e.got.0, e.got.1), &model::finish(&f.w, &grammar::exact(&f.w, &q), e.mode)),
        },
        QUERY => queries(e),
        CMP => compare(e),
        QNAN | SNAN => {
            let p = if e.n & 3 == 3 { None } else { Some(e.n) };
            let w = f.enc(&model::make_nan(&f.d, e.op == SNAN, p));
            (Cls::NanProp, if e.got.0 == w { Ok(()) } else { Err(format!("expected {:#x}", w)) })
        }
        _ => (Cls::Special, if e.got.0 == e.x[0] { Ok(()) } else { bad("the pattern changed") }),
    }
}

fn step<T: Float + Conv>(ctx: &mut Ctx, f: &Pf, op: usize, x: [u128; 3], n: u128, mode: u8, s: &str) {
    if matches!(op, RTI | FMOD | REM) && f.d.emax < 2 * f.d.p {
        return; // left open: the format ends below 2^precision
    }
    let c = case(ops::NAMES[op], f.name, if takes_mode(op) { mode } else { NOMODE }, &[x[0], x[1], x[2], n]);
    if op == PARSE {
        ctx.text(s);
    }
    if let Some(got) = ctx.sut(&c, || {
        let g = Args { a: lvf::<T>(x[0]), b: lvf::<T>(x[1]), c: lvf::<T>(x[2]), n, mode };
        let (v, st, q) = ops::sut(op, &g, s);
        (v.to_bits(), st, q)
    }) {
        let mut notes = vec![];
        let e = Ev { f, op, x, n, mode, got };
        let (cls, v) = verdict(&e, s, &mut notes);
        for w in notes {
            ctx.note(w, 1);
        }
        ctx.seen(op, f.d.id, c.mode, cls, nontriv(cls), hash_args(hash_str(s), &c.args));
        ctx.sample(|| format!("{} -> {:#x} status {:#x} extra {:#x}", c.describe(), got.0, got.1, got.2));
        if let Err(w) = v {
            ctx.fail(&c, &format!("got {:#x} status {:#x} extra {:#x}: {}", got.0, got.1, got.2, w));
        }
    }
    if op == PARSE {
        ctx.no_text();
    }
}

/// Constants, extremes and the decoding of every kind of value.
fn constants<T: Float>(ctx: &mut Ctx, f: &Pf) {
    let d = &f.d;
    let c = case("constants", f.name, NOMODE, &[]);
    let e = |v: &V| f.split(v);
    let want = (
        (2 * d.bits as usize, 2 * d.p as usize, d.emax as i32, (d.emin + d.p) as i32),
        [0, e(&V::Inf(false)), e(&model::default_nan(d, false)), e(&V::Fin { neg: false, m: largest(f), e: d.emax - 2 * d.p + 1 }), e(&pairs::power(d.qmin())), e(&pairs::power(d.emin + d.p))],
    );
    ev_eq(ctx, RECODE, d.id, &c, Cls::Exact, true, &want, || {
        (
            (T::BITS, T::PRECISION, T::MAX_EXP, T::MIN_EXP),
            [T::ZERO.to_bits(), T::INFINITY.to_bits(), T::NAN.to_bits(), T::largest().to_bits(), T::SMALLEST.to_bits(), T::smallest_normalized().to_bits()],
        )
    });
}

fn text(r: &mut Rng, f: &Pf) -> String {
    let w = &f.w;
    if r.chance(1, 5) {
        return grammar::string(r);
    }
    // a value of twice the precision, or a point between two
    let s = match r.below(4) {
        0 => (1u128 << w.p) - 1 - r.below(4) as u128,
        1 => 1u128 << (w.p - 1) | gen::pattern(r, f.d.p - 1),
        _ => gen::pattern(r, w.p) | 1 << (w.p - 1),
    };
    let q = match r.below(4) {
        0 => w.emax - w.p + 1,
        1 => w.qmin() - r.range(0, w.p + 2),
        _ => r.range(w.qmin().max(-150), (w.emax - w.p + 1).min(100)),
    };
    let k = r.below(3) as i64;
    let m = Big::from_u128(s).shl(k).add(&Big::from_u128(if k == 0 { 0 } else { 1 + r.below(2) as u128 }));
    let neg = r.bool();
    if r.bool() {
        let mut h = String::new();
        for i in (0..(m.bits() + 3) / 4).rev() {
            let v: u32 = (0..4).map(|k| (m.bit(4 * i + k) as u32) << k).sum();
            h.push(char::from_digit(v, 16).unwrap());
        }
        return format!("{}0x{}p{}", if neg { "-" } else { "" }, h, q - k);
    }
    let (mut d, mut x) = model::to_decimal(&m, q - k);
    gen::perturb_decimal(r, &mut d, &mut x);
    gen::spell_decimal(r, neg, &d, x)
}

fn number(r: &mut Rng, f: &Pf, op: usize, a: u128) -> u128 {
    let d = &f.d;
    match op {
        SCALBN => {
            let (h, _) = f.vparts(a);
            let k = if h.is_fin() { h.ilogb() } else { 0 };
            let n = match r.below(6) {
                0 => r.range(-8, 8),
                1 => d.emax - k + r.range(-2, 2),
                2 => d.emin - k + r.range(-2, 2),
                3 => d.qmin() - k + r.range(-3, 3),
                4 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, 3000, -3000]),
                _ => r.range(d.qmin() - d.emax, d.emax - d.qmin()),
            };
            n as i32 as u32 as u128
        }
        FROM_U | FROM_I if r.bool() => {
            // about the precision, within the range
            let k = r.range(1, (d.emax + 2).min(127).min(4 * d.p));
            let n = gen::pattern(r, k);
            if op == FROM_I && r.bool() { n.wrapping_neg() } else { n }
        }
        FROM_U | FROM_I => gen::int_arg(r, &f.w),
        TO_U | TO_I => {
            let (h, _) = f.vparts(a);
            let k = if h.is_fin() && r.chance(2, 3) { h.ilogb() + r.range(-1, 2) } else { r.range(1, 128) };
            ((k.clamp(1, 128) - 1) as u128) << 1 | r.below(2) as u128
        }
        _ => r.u128(),
    }
}

/// Random workload over one pair format.
fn random<T: Float + Conv>(ctx: &mut Ctx, f: &Pf) {
    for _ in 0..20 {
        let (a, b) = match ctx.rng.below(8) {
            0 => {
                let r = &mut ctx.rng;
                (f.special(r), if r.bool() { f.special(r) } else { f.any(r) })
            }
            _ => f.two(&mut ctx.rng),
        };
        for op in [ADD, SUB, MUL, DIV] {
            let other = 1 + ctx.rng.below(4) as u8;
            step::<T>(ctx, f, op, [a, b, 0], 0, 0, "");
            step::<T>(ctx, f, op, [a, b, 0], 0, other, "");
        }
        for op in [FMOD, REM, MIN, MAX, MINIMUM, MAXIMUM, CMP, COPY_SIGN] {
            step::<T>(ctx, f, op, [a, b, 0], 0, 0, "");
        }
        for op in [NEXT_UP, NEXT_DOWN, NEG, ABS, QUERY, INVERSE, RECODE] {
            step::<T>(ctx, f, op, [a, 0, 0], 0, 0, "");
        }
        // a third operand near the product, or anywhere
        let r = &mut ctx.rng;
        let c = match (f.value(a), f.value(b)) {
            (x @ V::Fin { .. }, y @ V::Fin { .. }) => {
                let k = top(&pairs::product(&x, &y)) - 1;
                match r.below(4) {
                    0 | 1 => match pairs::product(&x, &y) {
                        V::Fin { neg, m, e } => {
                            let w = model::round_real(&f.w, !neg, &m, e, false, model::RNE).v;
                            let w = match r.below(3) {
                                0 => w,
                                1 => model::next_up(&f.w, &w).v,
                                _ => model::next_down(&f.w, &w).v,
                            };
                            f.split(&w)
                        }
                        _ => 0,
                    },
                    2 => f.finite_in(r, k - 2 * f.d.p - 2, k - 2 * f.d.p + 1),
                    _ => f.finite_in(r, k - 4 * f.d.p, k + 4 * f.d.p),
                }
            }
            _ => f.any(r),
        };
        let c = if f.value(c).is_finite() { c } else { f.any(r) };
        for mode in model::MODES {
            step::<T>(ctx, f, FMA, [a, b, c], 0, mode, "");
        }
        let r = &mut ctx.rng;
        let i = f.finite_in(r, -3, 2 * f.d.p + 2);
        for mode in model::MODES {
            step::<T>(ctx, f, RTI, [i, 0, 0], 0, mode, "");
        }
        for op in [SCALBN, FREXP, FROM_U, FROM_I, TO_U, TO_I, QNAN, SNAN] {
            let x = if ctx.rng.bool() { a } else { i };
            let n = number(&mut ctx.rng, f, op, x);
            for mode in if takes_mode(op) { &model::MODES[..] } else { &[0] } {
                step::<T>(ctx, f, op, [x, 0, 0], n, *mode, "");
            }
        }
        let t = ctx.rng.u128();
        let x = f.any(&mut ctx.rng);
        if f.value(x).is_finite() && top(&f.value(x)).abs() < 200 || f.value(x).is_nan() || f.d.emax < 200 {
            step::<T>(ctx, f, TEXT, [x, 0, 0], t, (t >> 60 & 3) as u8, "");
            step::<T>(ctx, f, TEXT, [x, 0, 0], t & 4, 0, "");
        }
        let s = text(&mut ctx.rng, f);
        for mode in model::MODES {
            step::<T>(ctx, f, PARSE, [0; 3], 0, mode, &s);
        }
    }
}

/// A block of every pair of normalised pairs, in every mode; with every addend of a few.
fn exhaustive<T: Float + Conv>(ctx: &mut Ctx, f: &Pf, all: &[u128], row: usize) {
    let d = &f.d;
    let specials = [0, d.sign_bit(), gen::inf(d, false), gen::inf(d, true), f.enc(&model::default_nan(d, false))];
    {
        let a = all[row];
        for &b in all.iter().chain(&specials) {
            for op in [ADD, SUB, MUL, DIV] {
                for mode in model::MODES {
                    step::<T>(ctx, f, op, [a, b, 0], 0, mode, "");
                }
            }
            for op in [FMOD, REM, CMP] {
                step::<T>(ctx, f, op, [a, b, 0], 0, 0, "");
            }
            let c = *ctx.rng.pick(all);
            for mode in model::MODES {
                step::<T>(ctx, f, FMA, [a, b, c], 0, mode, "");
            }
        }
        for op in [RTI, NEXT_UP, NEXT_DOWN, NEG, ABS, QUERY, INVERSE, FREXP] {
            for mode in model::MODES {
                step::<T>(ctx, f, op, [a, 0, 0], 0, mode, "");
            }
        }
        for n in -2 * d.emax..=2 * d.emax {
            for mode in model::MODES {
                step::<T>(ctx, f, SCALBN, [a, 0, 0], n as i32 as u32 as u128, mode, "");
            }
        }
        for n in 0..24 {
            for mode in model::MODES {
                for op in [TO_U, TO_I] {
                    step::<T>(ctx, f, op, [a, 0, 0], n, mode, "");
                }
            }
        }
        for n in [0, 4, 1 | 1 << 8, 2 | 3 << 16, 3 | 5 << 8 | 2 << 16] {
            step::<T>(ctx, f, TEXT, [a, 0, 0], n, 0, "");
        }
        ctx.note("rows of the tables of all pairs of pairs", 1);
    }
}

const FORMATS: usize = 9;
const PFS: [Pf; FORMATS] = [
    Pf::of("pair of C7e4", c::<C7e4>()),
    Pf::of("pair of Float8E5M2", model::E5M2),
    Pf::of("pair of C8e4", c::<C8e4>()),
    Pf::of("pair of C9e5", c::<C9e5>()),
    Pf::of("pair of BFloat", model::BFLOAT),
    Pf::of("pair of Half", model::HALF),
    Pf::of("pair of Fp24", c::<Fp24>()),
    Pf::of("pair of Single", model::SINGLE),
    Pf::of("pair of Double", model::DOUBLE),
];
const fn c<S: Semantics>() -> model::Fmt
where
    ieee::IeeeFloat<S>: Fp,
{
    <ieee::IeeeFloat<S> as Fp>::FMT
}

macro_rules! by_pair {
    ($i:expr, $T:ident => $body:expr) => {
        match $i {
            0 => { type $T = DoubleFloat<ieee::IeeeFloat<C7e4>>; $body }
            1 => { type $T = DoubleFloat<ieee::Float8E5M2>; $body }
            2 => { type $T = DoubleFloat<ieee::IeeeFloat<C8e4>>; $body }
            3 => { type $T = DoubleFloat<ieee::IeeeFloat<C9e5>>; $body }
            4 => { type $T = DoubleFloat<ieee::BFloat>; $body }
            5 => { type $T = DoubleFloat<ieee::Half>; $body }
            6 => { type $T = DoubleFloat<ieee::IeeeFloat<Fp24>>; $body }
            7 => { type $T = DoubleFloat<ieee::Single>; $body }
            8 => { type $T = DoubleFloat<ieee::Double>; $body }
            _ => unreachable!(),
        }
    };
}

static TABLES: std::sync::OnceLock<[Vec<u128>; 3]> = std::sync::OnceLock::new();

fn chunk(ctx: &mut Ctx) {
    let t = TABLES.get_or_init(|| [PFS[0].all(), PFS[1].all(), PFS[2].all()]);
    let k = ctx.chunk;
    let n = t[0].len() as u64;
    // every row of the smallest table (a part of them in the quick run, another one for each seed), rows of two others
    if ctx.thorough && k < n {
        exhaustive::<DoubleFloat<ieee::IeeeFloat<C7e4>>>(ctx, &PFS[0], &t[0], k as usize);
        return;
    }
    let i = (k % FORMATS as u64) as usize;
    if i < 3 && k / FORMATS as u64 % 3 == 0 {
        let row = ctx.rng.below(t[i].len() as u64) as usize;
        by_pair!(i, T => exhaustive::<T>(ctx, &PFS[i], &t[i], row));
        return;
    }
    by_pair!(i, T => random::<T>(ctx, &PFS[i]));
}

fn before(ctx: &mut Ctx) {
    for (i, f) in PFS.iter().enumerate() {
        by_pair!(i, T => constants::<T>(ctx, f));
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let ids: Vec<u8> = PFS.iter().map(|f| f.d.id).collect();
    t.need(&mut v, &[ADD, SUB, MUL], &ids, &[Exact, RoundUp, OvfInf, NanProp]);
    for op in [ADD, SUB, MUL] {
        if ids.iter().map(|&f| t.get(op, f, Invalid)).sum::<u64>() < 20 {
            v.push(format!("op {} almost never invalid", op));
        }
    }
    t.need(&mut v, &[DIV, FMA], &ids, &[Exact, RoundUp, RoundDown, SubInexact, OvfInf]);
    let roomy: Vec<u8> = PFS.iter().filter(|f| f.d.emax >= 2 * f.d.p).map(|f| f.d.id).collect();
    t.need(&mut v, &[FMOD, REM], &roomy, &[Exact, ZeroExact]);
    t.need(&mut v, &[RTI], &roomy, &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[SCALBN], &ids, &[Exact, OvfInf, SubInexact]);
    t.need(&mut v, &[MIN, MAX, MINIMUM, MAXIMUM, CMP], &ids, &[RoundUp, RoundDown, Tie, NanProp]);
    t.need(&mut v, &[QUERY], &ids, &[Exact, SubExact]);
    t.need(&mut v, &[FROM_U, FROM_I], &roomy, &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[PARSE], &ids, &[RoundUp, RoundDown, Special]);
    t.need_note(&mut v, "rows of the tables of all pairs of pairs", 40);
    v
}

fn main() {
    run("D07", Spec {
        ops: ops::NAMES,
        rule: "an event is one operation on pairs of one of ten element formats (user-defined ones of 6 to 24 bits, Float8E5M2, BFloat, Half, Single, Double), judged with the rules of D01 to D06 written for the element's precision; the pairs of the smallest element format are covered completely (every two operands, every mode), rows of the full tables of three more, the rest randomly; non-trivial = finite non-zero",
        quick: 600,
        thorough: 100_000,
        chunk,
        gate,
        before,
    })
}
