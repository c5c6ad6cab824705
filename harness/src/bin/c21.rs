//! C21: status flags tell the truth about the delivered result.
//! The monitor decides exactness by comparing the delivered encoding with the exact
//! result; it never predicts how the result should have been rounded.
use mon::fp::*;
use mon::grammar::{self, P};
use mon::model::{self, Cls, Ex, Fmt, Out, V};
use mon::ops::{self, *};
use mon::run::*;
use mon::{by_fmt, gen};
use rustc_apfloat::unpack;

/// Is the delivered value the exact result?
fn is_exact(x: &Ex, v: &V) -> bool {
    match x {
        Ex::SumZero => v.is_zero(),
        Ex::Fixed(o) => o.v == *v,
        Ex::Real { neg, m, e, sticky } => match v {
            V::Fin { neg: n2, m: m2, e: e2 } => {
                if *sticky || neg != n2 || m.bits() + e != m2.bits() + e2 {
                    return false;
                }
                let lo = (*e).min(*e2);
                m.shl(e - lo).cmp(&m2.shl(e2 - lo)) == std::cmp::Ordering::Equal
            }
            _ => false,
        },
    }
}

/// What the flags must be, given the exact result and what was delivered.
fn truth(f: &Fmt, op: usize, x: &Ex, v: &V) -> Result<u8, &'static str> {
    if let Ex::Fixed(o) = x {
        if o.v.is_nan() || o.st != 0 {
            // undefined, signaling operand, division of a finite value by zero, or quiet propagation
            return Ok(o.st);
        }
    }
    if is_exact(x, v) {
        return Ok(0);
    }
    let mut st = model::INEXACT;
    if op == RTI {
        return Ok(st);
    }
    match v {
        V::Nan { .. } if !f.nanonly => return Err("a NaN was delivered for a well-defined result"),
        V::Nan { .. } | V::Inf(_) => st |= model::OVERFLOW,
        V::Zero(_) => st |= model::UNDERFLOW,
        V::Fin { .. } if v.ilogb() < f.emin => st |= model::UNDERFLOW,
        _ => {}
    }
    Ok(st)
}

fn real(v: &V) -> Ex {
    match v {
        V::Fin { neg, m, e } => Ex::Real { neg: *neg, m: m.clone(), e: *e, sticky: false },
        v => Ex::Fixed(Out::new(v.clone(), 0, Cls::Special)),
    }
}

fn judge(ctx: &mut Ctx, op: usize, c: &Case, f: &Fmt, x: &Ex, got: (u128, u8), cls: Cls) {
    let v = model::decode(f, got.0);
    ctx.seen(op, f.id, c.mode, cls, nontriv(cls), hash_args(op as u64, &c.args));
    ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), got.0, st_name(got.1)));
    let what = match truth(f, op, x, &v) {
        Ok(st) if st == got.1 => return,
        Ok(st) => format!("delivered {:#x} with status {}; the truth is {}", got.0, st_name(got.1), st_name(st)),
        Err(e) => format!("delivered {:#x} with status {}: {}", got.0, st_name(got.1), e),
    };
    ctx.fail(c, &what);
}

fn arith<T: Fp + Conv>(ctx: &mut Ctx, op: usize, a: u128, b: u128, cc: u128, modes: &[u8]) {
    let f = T::FMT;
    let (va, vb) = (model::decode(&f, a), model::decode(&f, b));
    let x = match op {
        ADD => model::add(&f, &va, &vb),
        SUB => model::sub(&f, &va, &vb),
        MUL => model::mul(&f, &va, &vb),
        DIV => model::div(&f, &va, &vb),
        FMA => model::fma(&f, &va, &vb, &model::decode(&f, cc)),
        FMOD => model::fmod(&f, &va, &vb),
        REM => model::ieee_rem(&f, &va, &vb),
        _ => {
            if va.is_nan() {
                Ex::Fixed(model::nan_result(&f, &[&va]).unwrap())
            } else {
                real(&va)
            }
        }
    };
    let args = [a, b, cc];
    let ar = ops::arity(op);
    for &mode in modes {
        let cls = if op == RTI { model::round_to_integral(&f, &va, mode).cls } else { model::finish(&f, &x, mode).cls };
        let c = case(ops::NAMES[op], f.name, if takes_mode(op) { mode } else { NOMODE }, &args[..ar]);
        let g = Args { a: lv::<T>(a), b: lv2::<T>(b), c: lv3::<T>(cc), n: 0, mode };
        let Some(got) = ctx.sut(&c, || {
            let (v, st, _) = ops::sut(op, &g, "");
            (v.to_bits(), st as u8)
        }) else { continue };
        judge(ctx, op, &c, &f, &x, got, cls);
        if !takes_mode(op) {
            break;
        }
    }
}

fn conversions<T: Fp + Conv>(ctx: &mut Ctx) {
    let f = T::FMT;
    // to another format, with the loss flag
    let to = ctx.rng.below(NB);
    let u = model::BUILTIN[to as usize];
    let a = gen::convert_arg(&mut ctx.rng, &f, &u);
    let va = model::decode(&f, a);
    for mode in model::MODES {
        let c = case("convert_r", f.name, mode, &[a, to as u128]);
        let Some((b, st, lost)) = ctx.sut(&c, || lv::<T>(a).conv_to(to, mode)) else { continue };
        let vu = model::decode(&u, b);
        let want = model::convert(&f, &u, &va, mode).0;
        if va.is_nan() {
            let st_want = if model::is_signaling(&f, &va) { model::INVALID } else { 0 };
            if st != st_want {
                ctx.fail(&c, &format!("a NaN converted with status {}", st_name(st)));
            }
        } else {
            judge(ctx, CONVERT, &c, &u, &if va.is_inf() && u.nanonly { Ex::Fixed(Out::new(want.v.clone(), model::INEXACT, Cls::Inf)) } else { real(&va) }, (b, st), want.cls);
            // The flag says exactly whether the value changed.
            let changed = !is_exact(&real(&va), &vu);
            if lost != changed {
                ctx.fail(&c, &format!("loses_info is {} although the value {}", lost, if changed { "changed" } else { "is unchanged" }));
            }
        }
    }
    // integers
    let n = gen::int_arg(&mut ctx.rng, &f);
    for mode in model::MODES {
        for op in [FROM_U, FROM_I] {
            let neg = op == FROM_I && (n as i128) < 0;
            let mag = if neg { n.wrapping_neg() } else { n };
            let x = if mag == 0 { Ex::Fixed(Out::new(V::Zero(false), 0, Cls::ZeroExact)) } else { Ex::Real { neg, m: mon::big::Big::from_u128(mag), e: 0, sticky: false } };
            let c = case(ops::NAMES[op], f.name, mode, &[n]);
            let Some(got) = ctx.sut(&c, || if op == FROM_U { sv(T::from_u128_r(n, rm(mode))) } else { sv(T::from_i128_r(n as i128, rm(mode))) }) else { continue };
            judge(ctx, op, &c, &f, &x, got, model::from_int(&f, neg, mag, mode).cls);
        }
    }
    let a = if ctx.rng.bool() { gen::integral_arg(&mut ctx.rng, &f) } else { gen::any(&mut ctx.rng, &f) };
    let va = model::decode(&f, a);
    let near = if va.is_fin() { va.ilogb() } else { 7 };
    let w = if ctx.rng.bool() { (near + ctx.rng.range(-1, 3)).clamp(1, 128) } else { ctx.rng.range(1, 128) };
    for mode in model::MODES {
        for op in [TO_U, TO_I] {
            let c = case(ops::NAMES[op], f.name, mode, &[a, w as u128]);
            let Some((v, st, ex)) = ctx.sut(&c, || {
                let mut ex = false;
                let x = lv::<T>(a);
                if op == TO_U {
                    let r = x.to_u128_r(w as usize, rm(mode), &mut ex);
                    (r.value, r.status.bits(), ex)
                } else {
                    let r = x.to_i128_r(w as usize, rm(mode), &mut ex);
                    (r.value as u128, r.status.bits(), ex)
                }
            }) else { continue };
            let (_, mst, _, cls) = model::to_int(&va, w as u32, op == TO_I, mode);
            ctx.seen(op, f.id, mode, cls, nontriv(cls), hash_args(op as u64, &[a, w as u128]));
            let same = match &va {
                V::Zero(_) => v == 0,
                V::Fin { neg, m, e } => {
                    let ineg = op == TO_I && (v as i128) < 0;
                    let mag = if ineg { v.wrapping_neg() } else { v };
                    mag != 0 && is_exact(&Ex::Real { neg: ineg, m: mon::big::Big::from_u128(mag), e: 0, sticky: false }, &V::Fin { neg: *neg, m: m.clone(), e: *e })
                }
                _ => false,
            };
            let want = if mst == model::INVALID { model::INVALID } else if same { 0 } else { model::INEXACT };
            let want_ex = same && !(va.is_zero() && va.neg());
            if st != want || ex != want_ex {
                ctx.fail(&c, &format!("delivered {:#x} with status {} is_exact {}; the truth is {} {}", v, st_name(st), ex, st_name(want), want_ex));
            }
        }
    }
    // steps
    let a = gen::any(&mut ctx.rng, &f);
    let va = model::decode(&f, a);
    for op in [NEXT_UP, NEXT_DOWN] {
        let c = case(ops::NAMES[op], f.name, NOMODE, &[a]);
        let want = if model::is_signaling(&f, &va) { model::INVALID } else { 0 };
        let Some(st) = ctx.sut(&c, || {
            let x = lv::<T>(a);
            if op == NEXT_UP { x.next_up() } else { x.next_down() }.status.bits()
        }) else { continue };
        let cls = model::vcls(&f, &va);
        ctx.seen(op, f.id, NOMODE, cls, nontriv(cls), hash_args(op as u64, &[a]));
        if st != want {
            ctx.fail(&c, &format!("status {}, the truth is {}", st_name(st), st_name(want)));
        }
    }
}

fn strings<T: Fp>(ctx: &mut Ctx) {
    let f = T::FMT;
    let s = match ctx.rng.below(4) {
        0 => grammar::string(&mut ctx.rng),
        1 => {
            // hexadecimal: a value of the format, with or without a far-away tail
            let r = &mut ctx.rng;
            let a = gen::finite(r, &f);
            let V::Fin { neg, m, e } = model::decode(&f, a) else { return };
            let mut h = format!("{:x}", m.to_u128());
            let mut e = e;
            if r.bool() {
                let z = r.below(40);
                h += &"0".repeat(z as usize);
                h.push(*r.pick(b"012345678") as char);
                e -= 4 * (z as i64 + 1);
            }
            format!("{}0x{}p{}", if neg { "-" } else { "" }, h, e)
        }
        _ => {
            let (mut d, mut e) = gen::boundary_decimal(&mut ctx.rng, &f);
            if ctx.rng.chance(2, 3) {
                gen::perturb_decimal(&mut ctx.rng, &mut d, &mut e);
            }
            let neg = ctx.rng.bool();
            gen::spell_decimal(&mut ctx.rng, neg, &d, e)
        }
    };
    let p = grammar::parse(&s);
    if matches!(p, P::Reject) {
        return;
    }
    let x = grammar::exact(&f, &p);
    ctx.text(&s);
    for mode in model::MODES {
        let c = case("from_str_r", f.name, mode, &[]);
        let Some(r) = ctx.sut(&c, || T::from_str_r(&s, rm(mode)).map(sv)) else { continue };
        let Ok(got) = r else {
            ctx.fail(&c, "a valid number was rejected");
            continue;
        };
        let o = model::finish(&f, &x, mode);
        let x2 = if let Ex::Fixed(o) = &x { if o.v.is_nan() { Ex::Fixed(Out::new(model::decode(&f, got.0), 0, o.cls)) } else { x.clone() } } else { x.clone() };
        let v = model::decode(&f, got.0);
        ctx.seen(PARSE, f.id, mode, o.cls, nontriv(o.cls), hash_str(&s));
        match truth(&f, PARSE, &x2, &v) {
            Ok(st) if st == got.1 => {}
            t => ctx.fail(&c, &format!("delivered {:#x} with status {}; the truth is {:?}", got.0, st_name(got.1), t.map(st_name))),
        }
    }
    ctx.no_text();
}

/// Statuses or-ed along a computation: OK exactly when every step was exact.
fn sequence<T: Fp + Conv>(ctx: &mut Ctx) {
    let f = T::FMT;
    let mode = ctx.rng.below(5) as u8;
    let n = 2 + ctx.rng.below(7) as usize;
    let small = ctx.rng.chance(3, 4);
    let mut xs = vec![];
    for _ in 0..n {
        let r = &mut ctx.rng;
        let b = if small {
            let k = r.range(1, f.p.min(3).max(1));
            let m = gen::pattern(r, k).max(1);
            let e = r.range(-1, 1);
            let neg = r.bool();
            gen::from_sig(&f, neg, m, e)
        } else {
            gen::any(r, &f)
        };
        xs.push(b);
    }
    let kinds: Vec<usize> = (1..n).map(|_| *ctx.rng.pick(&[ADD, SUB, MUL, DIV, FMA, RTI, ADD, MUL])).collect();
    // what really happens, one step at a time, on encodings
    let mut acc = xs[0];
    let mut all = 0u8;
    let mut exact = true;
    for i in 1..n {
        let w = ops::expect(&f, kinds[i - 1], acc, xs[i], xs[0], 0, mode, "");
        acc = w.bits;
        all |= w.st as u8;
        exact &= w.st == 0;
    }
    let c = case("status accumulated over a sequence", f.name, mode, &[xs[0], xs[1], n as u128, kinds[0] as u128]);
    let got = ctx.sut(&c, || {
        let mut status = Status::OK;
        let mut v = lv::<T>(xs[0]);
        for i in 1..n {
            let y = lv::<T>(xs[i]);
            let r = rm(mode);
            v = match kinds[i - 1] {
                ADD => unpack!(status |=, v.add_r(y, r)),
                SUB => unpack!(status |=, v.sub_r(y, r)),
                MUL => unpack!(status |=, v.mul_r(y, r)),
                DIV => unpack!(status |=, v.div_r(y, r)),
                FMA => unpack!(status |=, v.mul_add_r(y, lv::<T>(xs[0]), r)),
                _ => unpack!(status |=, v.round_to_integral(r)),
            };
        }
        let last;
        let v = unpack!(last =, status.and(v));
        (v.to_bits(), status.bits(), last == status, status == Status::OK, status.is_empty())
    });
    let cls = if exact { Cls::Exact } else { Cls::RoundUp };
    ctx.seen(32, f.id, mode, cls, true, hash_args(32, &xs[..2]));
    if let Some(g) = got {
        if g != (acc, all, true, exact, exact) {
            ctx.fail(&c, &format!("got {:#x} {} ({:?}), expected {:#x} {} [operands {:x?}, operations {:?}]", g.0, st_name(g.1), g, acc, st_name(all), xs, kinds));
        }
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 64 {
            for a in k as u128 * 4..k as u128 * 4 + 4 {
                for b in 0..256 {
                    for op in [ADD, SUB, MUL, DIV, FMOD, REM] {
                        arith::<T>(ctx, op, a, b, 0, &model::MODES);
                    }
                }
                arith::<T>(ctx, RTI, a, 0, 0, &model::MODES);
            }
            ctx.note("exhaustive_8bit_pairs", 4 * 256);
            return;
        }
        for _ in 0..60 {
            for op in [ADD, SUB] {
                let (a, b) = gen::add_pair(&mut ctx.rng, &f);
                arith::<T>(ctx, op, a, b, 0, &model::MODES);
            }
            let (a, b) = gen::mul_pair(&mut ctx.rng, &f);
            arith::<T>(ctx, MUL, a, b, 0, &model::MODES);
            let (a, b) = gen::div_pair(&mut ctx.rng, &f);
            arith::<T>(ctx, DIV, a, b, 0, &model::MODES);
            let (a, b, c) = gen::fma_triple(&mut ctx.rng, &f);
            arith::<T>(ctx, FMA, a, b, c, &model::MODES);
            let (a, b) = gen::rem_pair(&mut ctx.rng, &f);
            if f.emax < 5000 || ctx.rng.chance(1, 8) {
                arith::<T>(ctx, FMOD, a, b, 0, &[0]);
                arith::<T>(ctx, REM, a, b, 0, &[0]);
            }
            let a = gen::integral_arg(&mut ctx.rng, &f);
            arith::<T>(ctx, RTI, a, 0, 0, &model::MODES);
            conversions::<T>(ctx);
            sequence::<T>(ctx);
            sequence::<T>(ctx);
        }
        for _ in 0..6 {
            strings::<T>(ctx);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    let inf = [0, 1, 2, 3, 4, 5, 7];
    t.need(&mut v, &[ADD, SUB, MUL, FMA], &all, &[Exact, RoundUp, RoundDown, Tie, Carry, OvfInf, OvfMax]);
    t.need(&mut v, &[DIV], &all, &[Exact, RoundUp, RoundDown, OvfInf, OvfMax]);
    t.need(&mut v, &[MUL, DIV, FMA], &all, &[SubExact, SubInexact, ToZero]);
    t.need(&mut v, &[FMOD, REM, RTI], &all, &[Exact]);
    t.need(&mut v, &[ADD, SUB, MUL, DIV, FMA, FMOD, REM], &inf, &[Invalid, NanProp]);
    t.need(&mut v, &[RTI], &all, &[ToZero, Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[PARSE], &all, &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[PARSE], &[0, 1, 2, 4, 5, 6], &[OvfInf, ToZero]);
    t.need(&mut v, &[CONVERT], &[0, 1, 2, 4, 5, 6, 7], &[Exact, OvfInf, ToZero]);
    t.need(&mut v, &[TO_U, TO_I], &all, &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[FROM_U, FROM_I], &all, &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[32], &all, &[Exact, RoundUp]);
    t.need_note(&mut v, "exhaustive_8bit_pairs", 2 * 65536);
    v
}

const NAMES33: [&str; 33] = {
    let mut a = ["status sequence"; 33];
    let mut i = 0;
    while i < 32 {
        a[i] = ops::NAMES[i];
        i += 1;
    }
    a
};

fn main() {
    run("C21", Spec {
        ops: &NAMES33,
        rule: "an event is one status-returning call (or one accumulated sequence); the monitor compares the delivered value with the exact result and derives the only truthful flags from that comparison alone (inexact iff different, overflow/underflow by what was delivered, invalid and division-by-zero by the operands); non-trivial = a finite non-zero exact result",
        quick: 8 * 1800,
        thorough: 8 * 40000,
        chunk,
        gate,
        before: nothing,
    })
}
