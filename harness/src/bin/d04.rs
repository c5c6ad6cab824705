//! D04: double-double conversions to and from integers, text and bits.
use mon::big::Big;
use mon::dd;
use mon::fp::*;
use mon::grammar::{self, P};
use mon::model::{self, Cls, V, F106};
use mon::ops::render;
use mon::run::*;
use mon::gen;
use rustc_apfloat::ppc::DoubleDouble as DD;

/// Compare a delivered pair and status with a 106-bit result.
fn deliver(ctx: &mut Ctx, op: usize, c: &Case, key: u64, got: (u128, u8), want: &model::Out) {
    let wb = dd::split(&want.v);
    ctx.seen(op, dd::ID, c.mode, want.cls, nontriv(want.cls), key);
    ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), got.0, st_name(got.1)));
    let top = want.v.is_fin() && dd::value(wb).is_inf();
    if top {
        ctx.note("106-bit results above the largest pair", 1);
    }
    if got.0 != wb || got.1 != want.st && !top {
        ctx.fail(c, &format!("got {:#x} {}, expected {:#x} {} (class {})", got.0, st_name(got.1), wb, st_name(want.st), model::CLS_NAMES[want.cls as usize]));
    }
    if !dd::normalised(got.0) {
        ctx.fail(c, &format!("got {:#x}, not a normalised pair", got.0));
    }
}

fn text(ctx: &mut Ctx, s: &str, modes: &[u8]) {
    let p = grammar::parse(s);
    ctx.text(s);
    let key = hash_str(s);
    for &mode in modes {
        let c = dd::case2("from_str_r", mode, &[]);
        let Some(got) = ctx.sut(&c, || DD::from_str_r(s, rm(mode)).map(sv)) else { continue };
        match (&p, got) {
            (P::Reject, Err(_)) => ctx.seen(0, dd::ID, mode, Cls::Special, false, key),
            (P::Nan { neg, .. }, Ok((b, st))) => {
                ctx.seen(0, dd::ID, mode, Cls::NanProp, false, key);
                let v = dd::value(b);
                if !v.is_nan() || v.neg() != *neg || st & !model::INVALID != 0 || dd::parts(b).1 != 0 {
                    ctx.fail(&c, &format!("got {:#x} {}, expected a NaN of the written sign", b, st_name(st)));
                }
            }
            (P::Reject, Ok(g)) => ctx.fail(&c, &format!("accepted as {:#x} {}", g.0, st_name(g.1))),
            (_, Err(e)) => ctx.fail(&c, &format!("rejected: {:?}", e)),
            (_, Ok(g)) => {
                let want = model::finish(&F106, &grammar::exact(&F106, &p), mode);
                deliver(ctx, 0, &c, key, g, &want);
            }
        }
    }
    if ctx.rng.chance(1, 4) {
        let c = dd::case2("from_str", NOMODE, &[]);
        let Some(got) = ctx.sut(&c, || s.parse::<DD>().map(|v| v.to_bits())) else { return };
        ctx.seen(1, dd::ID, NOMODE, Cls::Special, false, key);
        let ok = match (&p, got) {
            (P::Reject, g) => g.is_err(),
            (P::Nan { .. }, Ok(b)) => dd::value(b).is_nan(),
            (_, Ok(b)) => b == dd::split(&model::finish(&F106, &grammar::exact(&F106, &p), 0).v),
            _ => false,
        };
        if !ok {
            ctx.fail(&c, &format!("got {:x?}", got));
        }
    }
}

/// A 106-bit value or a point between two, as digits * 2^q.
fn boundary(ctx: &mut Ctx) -> (Big, i64) {
    let r = &mut ctx.rng;
    let (s, q) = match r.below(9) {
        0 => (gen::pattern(r, 8) | 1, F106.qmin()),
        1 => ((1u128 << 106) - 1 - r.below(4) as u128, F106.emax - 105),
        // between the largest pair and the largest 106-bit value
        2 => (((1u128 << 106) - (1u128 << 52)).wrapping_add(r.range(-3, 3) as i128 as u128), F106.emax - 105),
        3 => (1u128 << 105 | r.below(3) as u128, F106.emin - 105 - r.range(0, 3)),
        4 => (gen::pattern(r, 106) | 1, F106.qmin()),
        // halves of a double: the low part is a power of two or next to one
        5 => {
            let h = gen::pattern(r, 53) | 1 << 52;
            let t = (1u128 << 52).wrapping_add(r.range(-2, 2) as i128 as u128);
            (h << 53 | t, r.range(-300, 300))
        }
        6 => (gen::pattern(r, 106) | 1 << 105, r.range(-160, 40)),
        7 => (gen::pattern(r, 106) | 1 << 105, r.range(F106.qmin(), F106.emax - 105)),
        _ => {
            let h = gen::pattern(r, 53) | 1 << 52;
            let w = r.range(1, 52);
            (h << 53 | gen::pattern(r, w), r.range(-300, 300))
        }
    };
    let k = *r.pick(&[0i64, 1, 1, 1, 2, 2]);
    let m = Big::from_u128(s).shl(k).add(&Big::from_u128(if k == 0 { 0 } else { 1 + 2 * r.below(k as u64) as u128 }));
    (m, q - k)
}

fn hex(ctx: &mut Ctx, neg: bool, m: &Big, q: i64) -> String {
    let r = &mut ctx.rng;
    let mut d = String::new();
    for i in (0..(m.bits() + 3) / 4).rev() {
        let v: u32 = (0..4).map(|k| (m.bit(4 * i + k) as u32) << k).sum();
        d.push(char::from_digit(v, 16).unwrap());
    }
    let n = d.len() as i64;
    let mut x = q;
    if r.bool() {
        let p = r.range(0, n);
        d.insert(p as usize, '.');
        x += 4 * (n - p);
    }
    if r.chance(1, 3) {
        // something far below, or nothing
        if !d.contains('.') {
            d.push('.');
        }
        let z = r.below(40) as usize;
        d.push_str(&"0".repeat(z));
        if r.bool() {
            d.push('1');
        }
    }
    format!("{}0x{}p{}", if neg { "-" } else { "" }, d, x)
}

fn ints(ctx: &mut Ctx) {
    let n = match ctx.rng.below(3) {
        // more than 106 bits, at ties and near them
        0 => {
            let r = &mut ctx.rng;
            let bits = r.range(104, 128);
            let head = gen::pattern(r, bits.min(106)) | 1 << (bits.min(106) - 1);
            let t = (bits - 106).max(0);
            let tail = if t == 0 { 0 } else { (1u128 << (t - 1)).wrapping_add(r.range(-1, 1) as i128 as u128) & ((1 << t) - 1) };
            head << t | tail
        }
        _ => gen::int_arg(&mut ctx.rng, &F106),
    };
    for &mode in &model::MODES {
        let c = dd::case2("from_u128_r", mode, &[n]);
        if let Some(g) = ctx.sut(&c, || sv(DD::from_u128_r(n, rm(mode)))) {
            deliver(ctx, 2, &c, hash_args(2, &c.args), g, &model::from_int(&F106, false, n, mode));
        }
        let c = dd::case2("from_i128_r", mode, &[n]);
        let i = n as i128;
        if let Some(g) = ctx.sut(&c, || sv(DD::from_i128_r(i, rm(mode)))) {
            deliver(ctx, 3, &c, hash_args(3, &c.args), g, &model::from_int(&F106, i < 0, i.unsigned_abs(), mode));
        }
    }
    // to integers
    let r = &mut ctx.rng;
    let w = match r.below(4) {
        0 => [1, 2, 8, 32, 53, 54, 64, 106, 107, 127, 128][r.below(11) as usize],
        _ => 1 + r.below(128),
    };
    let x = match r.below(8) {
        0 => dd::any(r),
        1 => {
            let k = w as i64;
            dd::finite_in(r, k - 3, k + 1)
        }
        // next to a bound of the type, as the pair (2^w, -d)
        2 | 3 => {
            let k = w as i64 - r.below(2) as i64;
            let d = [0u128, 1, 2, 3][r.below(4) as usize];
            let b = Big::pow2(k + 2);
            let d = Big::from_u128(d);
            let m = if r.bool() { b.add(&d) } else if b.bits() > 3 { b.sub(&d) } else { b };
            let t = model::round_real(&F106, r.bool(), &m, -2, false, model::RNE).v;
            dd::split(&t)
        }
        4 => {
            let m = gen::pattern(r, 106) | 1;
            let k = r.below(108) as i64;
            dd::split(&V::Fin { neg: r.bool(), m: Big::from_u128(m), e: -k })
        }
        5 => {
            // an integer high part and a fractional or tiny low part
            let e = r.range(0, 60);
            dd::finite_in(r, e, e)
        }
        _ => {
            let e = r.range(-4, 130);
            dd::finite_in(r, e, e)
        }
    };
    let v = dd::to106(x);
    let w = w as u32;
    for &mode in &model::MODES {
        for signed in [false, true] {
            let want = model::to_int(&v, w, signed, mode);
            let c = dd::case2(if signed { "to_i128_r" } else { "to_u128_r" }, mode, &[x, w as u128]);
            let op = 4 + signed as usize;
            let got = ctx.sut(&c, || {
                let mut ex = mode & 1 != 0;
                if signed {
                    let g = dd::sut(x).to_i128_r(w as usize, rm(mode), &mut ex);
                    (g.value as u128, g.status.bits(), ex)
                } else {
                    let g = dd::sut(x).to_u128_r(w as usize, rm(mode), &mut ex);
                    (g.value, g.status.bits(), ex)
                }
            });
            let Some(got) = got else { continue };
            ctx.seen(op, dd::ID, mode, want.3, nontriv(want.3), hash_args(op as u64, &c.args));
            ctx.sample(|| format!("{} -> {:x?}", c.describe(), got));
            if got != (want.0, want.1, want.2) {
                ctx.fail(&c, &format!("got {:x?}, expected {:x?} (class {})", got, (want.0, want.1, want.2), model::CLS_NAMES[want.3 as usize]));
            }
        }
    }
}

fn bits(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let b = match r.below(4) {
        0 => r.u128(),
        1 => dd::any(r),
        2 => {
            let (h, l) = (gen::any(r, &dd::D), gen::any(r, &dd::D));
            dd::join(h, l)
        }
        _ => {
            let (h, l) = (gen::nan(r, &dd::D), gen::any(r, &dd::D));
            if r.bool() { dd::join(h, l) } else { dd::join(l, h) }
        }
    };
    let c = dd::case2("from_bits(to_bits)", NOMODE, &[b]);
    let (h, l) = dd::parts(b);
    let cat = |b: u128| match model::class(&dd::D, &model::decode(&dd::D, b)) {
        model::Class::Zero => Category::Zero,
        model::Class::Inf => Category::Infinity,
        model::Class::Qnan | model::Class::Snan => Category::NaN,
        _ => Category::Normal,
    };
    let want = (b, cat(h), h >> 63 != 0, true, h == l);
    // bitwise equality sees both components
    let swapped = dd::join(l, h);
    ev_eq(ctx, 6, dd::ID, &c, Cls::Exact, true, &want, || {
        let x = dd::sut(b);
        (x.to_bits(), x.category(), x.is_negative(), x.bitwise_eq(dd::sut(b)), x.bitwise_eq(dd::sut(swapped)))
    });
    for k in 0..2 {
        let bit = ctx.rng.below(64) + 64 * k;
        let o = b ^ 1 << bit;
        let c = dd::case2("bitwise_eq", NOMODE, &[b, o]);
        ev_eq(ctx, 6, dd::ID, &c, Cls::Special, true, &false, || dd::sut(b).bitwise_eq(dd::sut(o)));
    }
}

fn display(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let x = match r.below(6) {
        0 => dd::any(r),
        1 => {
            // a short decimal, or a decimal half-way point
            let n = 1 + r.below(20) as u32;
            let m = 10u128.pow(n) + r.u128() % 10u128.pow(n);
            let k = r.range(0, 40);
            let v = model::from_decimal(&F106, r.bool(), m.to_string().as_bytes(), -k, 0).v;
            dd::split(&v)
        }
        2 => {
            let m = gen::pattern(r, 106) | 1;
            let k = r.range(0, 120);
            dd::split(&V::Fin { neg: r.bool(), m: Big::from_u128(m), e: -k })
        }
        _ => {
            let lim = if r.bool() { 60 } else { 300 };
            dd::finite_in(r, -lim, lim)
        }
    };
    let v = dd::to106(x);
    let natural = 2 + 106 * 59 / 196;
    let p = match r.below(6) {
        0 | 1 => None,
        2 => Some(0),
        3 => Some(natural + r.below(3) as usize - 1),
        4 => Some(1 + r.below(12) as usize),
        _ => Some(1 + r.below(120) as usize),
    };
    let w = match r.below(4) {
        0 | 1 => None,
        2 => Some(r.below(4) as usize),
        _ => Some(r.below(400) as usize),
    };
    let alt = r.bool();
    let enc = |o: Option<usize>| o.map_or(0, |x| x as u128 + 1);
    let c = dd::case2("display", NOMODE, &[x, enc(p), enc(w), alt as u128]);
    let want = model::display(&F106, &v, p, w, alt);
    let Some(got) = ctx.sut(&c, || render(&dd::sut(x), p, w, alt)) else { return };
    let cls = if !v.is_fin() { Cls::Special } else if want.contains(['e', 'E']) { Cls::RoundUp } else if want.contains('.') { Cls::RoundDown } else { Cls::Exact };
    ctx.seen(7, dd::ID, alt as u8, cls, nontriv(cls), hash_args(7, &c.args));
    ctx.sample(|| format!("{} [precision {:?} width {:?} alternate {}] -> {:?}", c.describe(), p, w, alt, got));
    if got != want {
        ctx.fail(&c, &format!("precision {:?} width {:?} alternate {}: got {:?}, expected {:?}", p, w, alt, got, want));
    }
    if p.unwrap_or(0) == 0 {
        ctx.text(&got);
        let c = dd::case2("display and parse", NOMODE, &c.args);
        let want = if v.is_nan() { None } else { Some(dd::split(&v)) };
        let back = ctx.sut(&c, || DD::from_str_r(&got, Round::NearestTiesToEven).map(|g| g.value.to_bits()));
        ctx.seen(8, dd::ID, alt as u8, cls, nontriv(cls), hash_args(8, &c.args));
        match (back, want) {
            (None, _) => {}
            (Some(Ok(b)), Some(w)) if b == w => {}
            (Some(Ok(b)), None) if dd::value(b).is_nan() => {}
            (Some(g), w) => ctx.fail(&c, &format!("{:?} read back as {:x?}, expected {:x?}", got, g, w)),
        }
        ctx.no_text();
    }
}

fn chunk(ctx: &mut Ctx) {
    for i in 0..40 {
        let neg = ctx.rng.bool();
        if i % 2 == 0 {
            let (m, q) = boundary(ctx);
            let r = &mut ctx.rng;
            let q = if q.abs() > 400 && m.bits() < 100 && r.chance(3, 4) { r.range(-200, 100) } else { q };
            let (mut d, mut x) = model::to_decimal(&m, q);
            gen::perturb_decimal(r, &mut d, &mut x);
            let s = gen::spell_decimal(r, neg, &d, x);
            text(ctx, &s, &model::MODES);
            ctx.note("decimal boundary points", 1);
        } else {
            let (m, q) = boundary(ctx);
            let s = hex(ctx, neg, &m, q);
            text(ctx, &s, &model::MODES);
            ctx.note("hexadecimal boundary points", 1);
        }
        if i % 4 == 0 {
            let s = grammar::string(&mut ctx.rng);
            text(ctx, &s, &[0, 1]);
            let r = &mut ctx.rng;
            let nd = 1 + r.below(45);
            let d: Vec<u8> = (0..nd).map(|_| b'0' + r.below(10) as u8).collect();
            let x = r.range(-345, 312) - nd as i64;
            let s = gen::spell_decimal(r, neg, &d, x);
            text(ctx, &s, &model::MODES);
        }
        ctx.no_text();
        for _ in 0..4 {
            ints(ctx);
            bits(ctx);
        }
        display(ctx);
    }
}

fn before(ctx: &mut Ctx) {
    for s in ["snan", "-snan", "sNaN(5)", "nan", "-nan(0x123)", "+Inf", "-inf", "0", "-0", "0x0p0", "0x1.fffffffffffff8p1023", "0x1.fffffffffffff7ffffffffffff8p1023",
        "0x1.fffffffffffff7ffffffffffffcp1023", "0x1.ffffffffffffffffffffffffff8p1023", "0x1.ffffffffffffffffffffffffffcp1023", "0x1p1024", "1e309", "-1e309",
        "4.9e-324", "2e-324", "1e-400", "0x1p-1074", "0x1p-1075", "0x3p-1075"] {
        text(ctx, s, &model::MODES);
    }
    ctx.no_text();
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    t.need(&mut v, &[0], &[dd::ID], &[Exact, RoundUp, RoundDown, Tie, SubExact, SubInexact, ToZero, OvfInf, OvfMax, ZeroExact, NanProp, Special]);
    t.need(&mut v, &[2, 3], &[dd::ID], &[Exact, RoundUp, RoundDown, Tie]);
    t.need(&mut v, &[4, 5], &[dd::ID], &[Exact, RoundUp, RoundDown, Tie, ToZero, OvfMax, OvfInf, Inf, NanProp]);
    t.need(&mut v, &[7, 8], &[dd::ID], &[Exact, RoundUp, RoundDown, Special]);
    t.need_note(&mut v, "106-bit results above the largest pair", 10);
    v
}

fn main() {
    run("D04", Spec {
        ops: &["from_str_r", "from_str", "from_u128_r", "from_i128_r", "to_u128_r", "to_i128_r", "bits", "display", "display and parse"],
        rule: "an event is one conversion between double-double and text, an integer or its bit pattern, compared in full with the exact value rounded once to 106 bits and split (or with the pair's value rounded to 106 bits for the outward ones); strings and integers are built at and next to 106-bit rounding boundaries, at the halves where the high part rounds, at the range edges and from the grammar; non-trivial = finite non-zero",
        quick: 8000,
        thorough: 150_000,
        chunk,
        gate,
        before,
    })
}
