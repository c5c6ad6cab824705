//! C26: all spellings of an operation agree.
use mon::fp::*;
use mon::grammar;
use mon::model::{self, Cls};
use mon::ops::{self, *};
use mon::run::*;
use mon::{by_fmt, by_fmt_dd, dd, gen};
use rustc_apfloat::unpack;

const SPELL: usize = 0;
const NEGSUB: usize = 1;
const MIRROR: usize = 2;
const STATUS: usize = 3;
const INT: usize = 4;
const TEXTS: usize = 5;
const CONV: usize = 6;

struct Gen {
    f: model::Fmt,
    dd: bool,
}
impl Gen {
    fn pair(&self, ctx: &mut Ctx) -> (u128, u128, u128) {
        let r = &mut ctx.rng;
        if self.dd {
            let a = dd::any(r);
            let b = if r.chance(1, 3) { let n = dd::near(r, a); n } else { dd::any(r) };
            return (a, b, dd::any(r));
        }
        let f = &self.f;
        match r.below(6) {
            0 | 1 => { let p = gen::add_pair(r, f); (p.0, p.1, gen::any(r, f)) }
            2 => { let p = gen::mul_pair(r, f); (p.0, p.1, gen::any(r, f)) }
            3 => { let p = gen::div_pair(r, f); (p.0, p.1, gen::any(r, f)) }
            4 => { let p = gen::rem_pair(r, f); (p.0, p.1, gen::any(r, f)) }
            _ => gen::fma_triple(r, f),
        }
    }
}

type St = (u128, u32);
fn s2<T: Float>(r: StatusAnd<T>) -> St {
    (r.value.to_bits(), r.status.bits() as u32)
}

/// One agreement check: both sides are observed, only their equality is judged.
#[inline(never)]
fn agree<R: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, op: usize, fid: u8, c: &Case, nontrivial: bool, f: impl FnOnce() -> (R, R)) {
    let got = ctx.sut(c, f);
    agreed(ctx, op, fid, c, nontrivial, got);
}
#[inline(never)]
fn agreed<R: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, op: usize, fid: u8, c: &Case, nontrivial: bool, got: Option<(R, R)>) {
    if let Some((x, y)) = got {
        ctx.seen(op, fid, c.mode, if nontrivial { Cls::Exact } else { Cls::Special }, nontrivial, hash_args(hash_str(c.op), &c.args[..c.n as usize]));
        ctx.sample(|| format!("{} -> {:?}", c.describe(), x));
        if x != y {
            ctx.fail(c, &format!("one spelling gives {:x?}, the other {:x?}", x, y));
        }
    }
}

#[inline(never)]
fn spellings<T: Float + Conv + std::fmt::Debug>(ctx: &mut Ctx, g: &Gen, name: &'static str, fid: u8) {
    let (a, b, c3) = g.pair(ctx);
    let (va, vb) = if g.dd { (dd::value(a), dd::value(b)) } else { (model::decode(&g.f, a), model::decode(&g.f, b)) };
    let nt = va.is_fin() && vb.is_fin();
    let nan = va.is_nan() || vb.is_nan();
    let (x, y, z) = (lvf::<T>(a), lvf::<T>(b), lvf::<T>(c3));
    let rne = Round::NearestTiesToEven;
    macro_rules! two {
        ($n:literal, $e:expr, $w:expr) => {
            agree(ctx, SPELL, fid, &case($n, name, NOMODE, &[a, b]), nt, || ($e, $w))
        };
    }
    two!("+ vs add_r", s2(x + y), s2(x.add_r(y, rne)));
    two!("- vs sub_r", s2(x - y), s2(x.sub_r(y, rne)));
    two!("* vs mul_r", s2(x * y), s2(x.mul_r(y, rne)));
    two!("/ vs div_r", s2(x / y), s2(x.div_r(y, rne)));
    two!("% vs c_fmod", s2(x % y), s2(x.c_fmod(y)));
    two!("+= vs add_r", { let mut t = x; t += y; t.to_bits() }, x.add_r(y, rne).value.to_bits());
    two!("-= vs sub_r", { let mut t = x; t -= y; t.to_bits() }, x.sub_r(y, rne).value.to_bits());
    two!("*= vs mul_r", { let mut t = x; t *= y; t.to_bits() }, x.mul_r(y, rne).value.to_bits());
    two!("/= vs div_r", { let mut t = x; t /= y; t.to_bits() }, x.div_r(y, rne).value.to_bits());
    two!("%= vs c_fmod", { let mut t = x; t %= y; t.to_bits() }, x.c_fmod(y).value.to_bits());
    agree(ctx, SPELL, fid, &case("mul_add vs mul_add_r", name, NOMODE, &[a, b, c3]), nt, || (s2(x.mul_add(y, z)), s2(x.mul_add_r(y, z, rne))));
    // subtraction is addition of the negation
    if !nan {
        for mode in 0..5u8 {
            let r = rm(mode);
            agree(ctx, NEGSUB, fid, &case("sub_r vs add_r of negation", name, mode, &[a, b]), nt, || (s2(x.sub_r(y, r)), s2(x.add_r(-y, r))));
            agree(ctx, NEGSUB, fid, &case("add_r vs sub_r of negation", name, mode, &[a, b]), nt, || (s2(x.add_r(y, r)), s2(x.sub_r(-y, r))));
        }
    }
    // scaling, fraction extraction
    let n = if ctx.rng.bool() { ctx.rng.range(-80, 80) } else { ctx.rng.range(-40000, 40000) } as i32;
    agree(ctx, SPELL, fid, &case("scalbn vs scalbn_r", name, NOMODE, &[a, n as u32 as u128]), nt, || (x.scalbn(n).to_bits(), x.scalbn_r(n, rne).to_bits()));
    agree(ctx, SPELL, fid, &case("frexp vs frexp_r", name, NOMODE, &[a]), nt, || {
        let (mut e, mut e2) = (1, 2);
        let p = x.frexp(&mut e).to_bits();
        let q = x.frexp_r(&mut e2, rne).to_bits();
        ((p, e), (q, e2))
    });
    // integers
    let w = 1 + ctx.rng.below(128) as usize;
    let rtz = Round::TowardZero;
    let k = [a, w as u128];
    agree(ctx, INT, fid, &case("to_u128 vs to_u128_r", name, NOMODE, &k), nt, || {
        let mut ex = false;
        let (p, q) = (x.to_u128(w), x.to_u128_r(w, rtz, &mut ex));
        ((p.value, p.status), (q.value, q.status))
    });
    agree(ctx, INT, fid, &case("to_i128 vs to_i128_r", name, NOMODE, &k), nt, || {
        let mut ex = false;
        let (p, q) = (x.to_i128(w), x.to_i128_r(w, rtz, &mut ex));
        ((p.value, p.status), (q.value, q.status))
    });
    let i = gen::int_arg(&mut ctx.rng, &g.f);
    agree(ctx, INT, fid, &case("from_u128 vs from_u128_r", name, NOMODE, &[i]), i != 0, || (s2(T::from_u128(i)), s2(T::from_u128_r(i, rne))));
    agree(ctx, INT, fid, &case("from_i128 vs from_i128_r", name, NOMODE, &[i]), i != 0, || (s2(T::from_i128(i as i128)), s2(T::from_i128_r(i as i128, rne))));
    if (i as i128) >= 0 {
        let mode = ctx.rng.below(5) as u8;
        agree(ctx, INT, fid, &case("from_i128_r vs from_u128_r", name, mode, &[i]), i != 0, || (s2(T::from_i128_r(i as i128, rm(mode))), s2(T::from_u128_r(i, rm(mode)))));
    }
    // text
    let s = if ctx.rng.bool() {
        grammar::string(&mut ctx.rng)
    } else {
        let (mut d, mut e) = gen::boundary_decimal(&mut ctx.rng, &g.f);
        gen::perturb_decimal(&mut ctx.rng, &mut d, &mut e);
        let neg = ctx.rng.bool();
        gen::spell_decimal(&mut ctx.rng, neg, &d, e)
    };
    ctx.text(&s);
    let key = [hash_str(&s) as u128];
    agree(ctx, TEXTS, fid, &case("FromStr vs from_str_r", name, NOMODE, &key), true, || {
        let p: Result<T, ParseError> = s.parse();
        let q = T::from_str_r(&s, rne);
        (p.map(|v| v.to_bits()).map_err(|e| e.0), q.map(|v| v.value.to_bits()).map_err(|e| e.0))
    });
    ctx.no_text();
    statuses::<T>(ctx, name, fid, x, y);
}

/// Status plumbing observed against plain bit arithmetic.
fn statuses<T: Float + std::fmt::Debug>(ctx: &mut Ctx, name: &'static str, fid: u8, x: T, y: T) {
    let (p, q) = (ctx.rng.below(32) as u8, ctx.rng.below(32) as u8);
    let (a, b) = (x.to_bits(), y.to_bits());
    let c = case("Status::and/map/unpack!", name, NOMODE, &[p as u128, q as u128, a]);
    agree(ctx, STATUS, fid, &c, p != 0, || {
        let (sp, sq) = (Status::from_bits(p).unwrap(), Status::from_bits(q).unwrap());
        let r = sp.and(x).map(|v| (v, y));
        let mut acc = sq;
        let (v, w) = unpack!(acc|=, r);
        let set;
        let u = unpack!(set=, sp.and(y));
        if set != sp || acc != (sp | sq) {
            return ((0, 0, 0, 0, 0), (1, set.bits(), acc.bits(), 0, 0));
        }
        ((v.to_bits(), acc.bits(), set.bits(), w.to_bits(), u.to_bits()), (a, p | q, p, b, b))
    });
    let c = case("StatusAnd::unwrap", name, NOMODE, &[p as u128, a]);
    let r = ctx.sut_raw(&c, || Status::from_bits(p).unwrap().and(x).unwrap().to_bits());
    ctx.seen(STATUS, fid, NOMODE, Cls::Special, false, 0);
    match (p, r) {
        (0, Ok(v)) if v == a => {}
        (0, other) => ctx.fail(&c, &format!("unwrap of an OK result gave {:x?}", other)),
        (_, Ok(v)) => ctx.fail(&c, &format!("unwrap of a non-OK result quietly gave {:#x}", v)),
        (_, Err(_)) => ctx.note("unwrap_refused", 1),
    }
}

/// Negating the exact result and mirroring the mode negates the result; the status stays.
#[inline(never)]
fn mirror<T: Fp + Conv>(ctx: &mut Ctx, g: &Gen) {
    let f = &T::FMT;
    let (a, b, c3) = g.pair(ctx);
    let (va, vb, vc) = (model::decode(f, a), model::decode(f, b), model::decode(f, c3));
    let (x, y, z) = (lv::<T>(a), lv2::<T>(b), lv3::<T>(c3));
    let nt = va.is_fin() && vb.is_fin();
    let nan2 = va.is_nan() || vb.is_nan();
    let sb = f.sign_bit();
    // -r for a number; NaN results carry their own sign rules
    let flip = |r: St| -> (Option<u128>, u32) {
        let v = model::decode(f, r.0);
        (if v.is_nan() { None } else { Some(r.0 ^ sb) }, r.1)
    };
    // sums that cancel exactly are +0 (or -0 toward negative) on both sides: their sign is left out
    let zsame = |r: St| -> (Option<u128>, u32) {
        let v = model::decode(f, r.0);
        (if v.is_nan() { None } else if v.is_zero() && r.1 == 0 { Some(0) } else { Some(r.0) }, r.1)
    };
    let zflip = |r: St| -> (Option<u128>, u32) {
        let v = model::decode(f, r.0);
        (if v.is_nan() { None } else if v.is_zero() && r.1 == 0 { Some(0) } else { Some(r.0 ^ sb) }, r.1)
    };
    let same = |r: St| -> (Option<u128>, u32) {
        let v = model::decode(f, r.0);
        (if v.is_nan() { None } else { Some(r.0) }, r.1)
    };
    for mode in 0..5u8 {
        let (r, m) = (rm(mode), -rm(mode));
        if m != rm(model::mirror(mode)) {
            ctx.fail(&case("-Round", f.name, mode, &[]), "the mirrored rounding mode is wrong");
        }
        macro_rules! mirz {
            ($n:literal, [$($k:expr),*], $skip:expr, $p:expr, $q:expr) => {
                if !$skip {
                    agree(ctx, MIRROR, f.id, &case($n, f.name, mode, &[$($k),*]), nt, || (zflip($p), zsame($q)));
                }
            };
        }
        macro_rules! mir {
            ($n:literal, [$($k:expr),*], $skip:expr, $p:expr, $q:expr) => {
                if !$skip {
                    agree(ctx, MIRROR, f.id, &case($n, f.name, mode, &[$($k),*]), nt, || (flip($p), same($q)));
                }
            };
        }
        mirz!("add_r mirrored", [a, b], nan2, s2(x.add_r(y, r)), s2((-x).add_r(-y, m)));
        mirz!("sub_r mirrored", [a, b], nan2, s2(x.sub_r(y, r)), s2((-x).sub_r(-y, m)));
        mirz!("sub_r swapped and mirrored", [a, b], nan2, s2(x.sub_r(y, r)), s2(y.sub_r(x, m)));
        mir!("mul_r mirrored", [a, b], nan2, s2(x.mul_r(y, r)), s2((-x).mul_r(y, m)));
        mir!("div_r mirrored", [a, b], nan2, s2(x.div_r(y, r)), s2((-x).div_r(y, m)));
        mir!("div_r mirrored in the divisor", [a, b], nan2, s2(x.div_r(y, r)), s2(x.div_r(-y, m)));
        mirz!("mul_add_r mirrored", [a, b, c3], nan2 || vc.is_nan(), s2(x.mul_add_r(y, z, r)), s2((-x).mul_add_r(y, -z, m)));
        mir!("round_to_integral mirrored", [a], va.is_nan(), s2(x.round_to_integral(r)), s2((-x).round_to_integral(m)));
        let n = ctx.rng.range(-300, 300) as i32;
        mir!("scalbn_r mirrored", [a, n as u32 as u128], va.is_nan(), (x.scalbn_r(n, r).to_bits(), 0), ((-x).scalbn_r(n, m).to_bits(), 0));
        let i = gen::int_arg(&mut ctx.rng, f) as i128;
        if i != 0 && i != i128::MIN {
            mir!("from_i128_r mirrored", [i as u128], false, s2(T::from_i128_r(i, r)), s2(T::from_i128_r(-i, m)));
        }
        // commuted and doubly negated forms
        if !nan2 {
            agree(ctx, MIRROR, f.id, &case("add_r commuted", f.name, mode, &[a, b]), nt, || (s2(x.add_r(y, r)), s2(y.add_r(x, r))));
            agree(ctx, MIRROR, f.id, &case("mul_r commuted", f.name, mode, &[a, b]), nt, || (s2(x.mul_r(y, r)), s2(y.mul_r(x, r))));
            agree(ctx, MIRROR, f.id, &case("mul_r doubly negated", f.name, mode, &[a, b]), nt, || (same(s2(x.mul_r(y, r))), same(s2((-x).mul_r(-y, r)))));
        }
        if !(nan2 || vc.is_nan()) {
            agree(ctx, MIRROR, f.id, &case("mul_add_r commuted", f.name, mode, &[a, b, c3]), nt, || (same(s2(x.mul_add_r(y, z, r))), same(s2(y.mul_add_r(x, z, r)))));
        }
        // parsing
        if ctx.rng.chance(1, 4) {
            let (mut d, mut e) = gen::boundary_decimal(&mut ctx.rng, f);
            gen::perturb_decimal(&mut ctx.rng, &mut d, &mut e);
            let s = gen::spell_decimal(&mut ctx.rng, false, &d, e);
            let s = s.trim_start_matches('+').to_string();
            ctx.text(&s);
            let t = format!("-{}", s);
            let key = hash_str(&s) as u128;
            agree(ctx, MIRROR, f.id, &case("from_str_r mirrored", f.name, mode, &[key]), true, || {
                let p = T::from_str_r(&s, r).map(s2).unwrap_or((0, 99));
                let q = T::from_str_r(&t, m).map(s2).unwrap_or((0, 99));
                (flip(p), same(q))
            });
            ctx.no_text();
        }
        // integers out: mirrored unless saturated
        let w = 1 + ctx.rng.below(128) as usize;
        if !va.is_nan() {
            agree(ctx, MIRROR, f.id, &case("to_i128_r mirrored", f.name, mode, &[a, w as u128]), nt, || {
                let (mut e1, mut e2) = (false, false);
                let p = x.to_i128_r(w, r, &mut e1);
                let q = (-x).to_i128_r(w, m, &mut e2);
                let lo = -1i128 << (w - 1);
                if va.is_zero() || p.status.contains(Status::INVALID_OP) || q.status.contains(Status::INVALID_OP) || p.value == lo || q.value == lo {
                    return (None, None);
                }
                (Some((-p.value, p.status, e1)), Some((q.value, q.status, e2)))
            });
        }
    }
    if !va.is_nan() {
        agree(ctx, MIRROR, f.id, &case("next_down is mirrored next_up", f.name, NOMODE, &[a]), nt, || (flip(s2(x.next_down())), same(s2((-x).next_up()))));
    }
    if !nan2 {
        agree(ctx, MIRROR, f.id, &case("c_fmod sign rules", f.name, NOMODE, &[a, b]), nt, || {
            let p = x.c_fmod(y);
            ((flip(s2(p)), same(s2(p))), (same(s2((-x).c_fmod(y))), same(s2(x.c_fmod(-y)))))
        });
        agree(ctx, MIRROR, f.id, &case("ieee_rem sign rules", f.name, NOMODE, &[a, b]), nt, || {
            let p = x.ieee_rem(y);
            ((flip(s2(p)), same(s2(p))), (same(s2((-x).ieee_rem(y))), same(s2(x.ieee_rem(-y)))))
        });
        if !(va.is_zero() && vb.is_zero()) {
            agree(ctx, MIRROR, f.id, &case("min is mirrored max", f.name, NOMODE, &[a, b]), nt, || {
                let n = |t: T| (-t).to_bits();
                ((n(x.min(y)), n(x.minimum(y))), ((-x).max(-y).to_bits(), (-x).maximum(-y).to_bits()))
            });
        }
        agree(ctx, MIRROR, f.id, &case("comparison mirrored", f.name, NOMODE, &[a, b]), nt, || {
            ((x.partial_cmp(&y), x < y, x <= y, x == y), ((-y).partial_cmp(&-x), y > x, y >= x, !(y != x)))
        });
    }
}

#[inline(never)]
fn conversion<T: Fp, U: Fp>(ctx: &mut Ctx, id2: u64)
where
    T: FloatConvert<U>,
{
    let (f, u) = (T::FMT, U::FMT);
    let a = gen::convert_arg(&mut ctx.rng, &f, &u);
    let x = lv::<T>(a);
    let va = model::decode(&f, a);
    let c = case("convert vs convert_r", f.name, NOMODE, &[a, id2 as u128]);
    agree(ctx, CONV, f.id, &c, va.is_fin(), || {
        let (mut l1, mut l2) = (true, false);
        let p: StatusAnd<U> = x.convert(&mut l1);
        let q: StatusAnd<U> = x.convert_r(Round::NearestTiesToEven, &mut l2);
        ((s2(p), l1), (s2(q), l2))
    });
    if !va.is_nan() && !(va.is_inf() && u.nanonly) {
        for mode in 0..5u8 {
            let c = case("convert_r mirrored", f.name, mode, &[a, id2 as u128]);
            agree(ctx, MIRROR, f.id, &c, va.is_fin(), || {
                let (mut l1, mut l2) = (true, false);
                let p: StatusAnd<U> = x.convert_r(rm(mode), &mut l1);
                let q: StatusAnd<U> = (-x).convert_r(-rm(mode), &mut l2);
                ((p.value.to_bits() ^ u.sign_bit(), p.status, l1), (q.value.to_bits(), q.status, l2))
            });
        }
    }
}

fn conversions(ctx: &mut Ctx) {
    let id = ctx.rng.below(NB);
    let id2 = ctx.rng.below(NB);
    by_fmt!(id, T => by_fmt!(id2, U => conversion::<T, U>(ctx, id2)));
}
fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % (NB + 1);
    if ctx.chunk < NB + 1 {
        by_fmt_dd!(id, T => {
            let c = case("default() vs ZERO", if id == 8 { dd::NAME } else { model::BUILTIN[id as usize].name }, NOMODE, &[]);
            agree(ctx, SPELL, if id == 8 { dd::ID } else { id as u8 }, &c, true, || (T::default().to_bits(), T::ZERO.to_bits()));
            agree(ctx, SPELL, if id == 8 { dd::ID } else { id as u8 }, &c, true, || (T::default().to_bits(), 0));
        });
    }
    for k in 0..60 {
        by_fmt_dd!(id, T => {
            let g = Gen { f: if id == 8 { model::DOUBLE } else { model::BUILTIN[id as usize] }, dd: id == 8 };
            let (name, fid) = if g.dd { (dd::NAME, dd::ID) } else { (g.f.name, g.f.id) };
            spellings::<T>(ctx, &g, name, fid);
        });
        if id < 8 {
            by_fmt!(id, T => mirror::<T>(ctx, &Gen { f: T::FMT, dd: false }));
        }
        if k % 4 == 0 {
            conversions(ctx);
        }
        if ctx.stopped() {
            return;
        }
    }
}

fn gate(t: &Totals) -> Vec<String> {
    let mut v = vec![];
    t.need(&mut v, &[SPELL, NEGSUB, STATUS, INT, TEXTS], &[0, 1, 2, 3, 4, 5, 6, 7, 9], &[Cls::Exact]);
    t.need(&mut v, &[MIRROR, CONV], &[0, 1, 2, 3, 4, 5, 6, 7], &[Cls::Exact]);
    t.need_note(&mut v, "unwrap_refused", 1000);
    v
}

fn main() {
    let _ = ops::COUNT;
    run("C26", Spec {
        ops: &["operators and defaults vs explicit", "sub vs add of negation", "sign/mode mirror", "status plumbing", "integer conversions", "FromStr vs from_str_r", "convert vs convert_r"],
        rule: "an event is one agreement between two spellings (or between an operation and its sign- and mode-mirrored twin) observed on the same operands; non-trivial = the operands are finite and non-zero (or the text/integer is not trivial)",
        quick: 9 * 100,
        thorough: 9 * 9000,
        chunk,
        gate,
        before: nothing,
    })
}
