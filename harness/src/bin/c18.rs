//! C18: NaN operands propagate quietly, keeping payload and sign.
use mon::fp::*;
use mon::model::{self, Cls, Fmt, Out, V};
use mon::run::*;
use mon::{by_fmt, gen};

const OPS: &[&str] = &[
    "add_r", "sub_r", "mul_r", "div_r", "ieee_rem", "c_fmod", "mul_add_r", "round_to_integral", "scalbn_r", "frexp_r", "next_up", "next_down",
];

/// The rule, stated directly (not through the arithmetic model).
fn expect(f: &Fmt, op: usize, v: &[V]) -> Out {
    let sig = v.iter().any(|x| model::is_signaling(f, x));
    match op {
        10 | 11 => {
            let V::Nan { neg, sig: s } = v[0] else { unreachable!() };
            return if sig {
                Out::new(model::default_nan(f, neg), model::INVALID, Cls::Invalid)
            } else {
                Out::new(V::Nan { neg, sig: s }, 0, Cls::NanProp)
            };
        }
        6 => {
            // zero times infinity with a quiet NaN addend: invalid, a fresh NaN
            if !v[0].is_nan() && !v[1].is_nan() && (v[0].is_zero() && v[1].is_inf() || v[0].is_inf() && v[1].is_zero()) {
                return Out::new(model::default_nan(f, false), model::INVALID, Cls::Special);
            }
        }
        _ => {}
    }
    let first = v.iter().find(|x| x.is_nan()).unwrap();
    let r = if model::is_signaling(f, first) { model::quieted(f, first) } else { first.clone() };
    Out::new(r, if sig { model::INVALID } else { 0 }, if sig { Cls::Invalid } else { Cls::NanProp })
}

fn one<T: Fp>(ctx: &mut Ctx, op: usize, a: &[u128], mode: u8, n: i32) {
    let f = T::FMT;
    let ar = match op { 0..=5 => 2, 6 => 3, _ => 1 };
    let v: Vec<V> = a[..ar].iter().map(|&x| model::decode(&f, x)).collect();
    if !v.iter().any(|x| x.is_nan()) {
        return;
    }
    let want = expect(&f, op, &v);
    let mut args = a[..ar].to_vec();
    if op == 8 {
        args.push(n as u32 as u128);
    }
    let c = case(OPS[op], f.name, mode, &args);
    let r = rm(mode);
    let Some(got) = ctx.sut(&c, || {
        let x = lv::<T>(a[0]);
        let y = lv2::<T>(a[1]);
        match op {
            0 => sv(x.add_r(y, r)),
            1 => sv(x.sub_r(y, r)),
            2 => sv(x.mul_r(y, r)),
            3 => sv(x.div_r(y, r)),
            4 => sv(x.ieee_rem(y)),
            5 => sv(x.c_fmod(y)),
            6 => sv(x.mul_add_r(y, lv3::<T>(a[2]), r)),
            7 => sv(x.round_to_integral(r)),
            8 => (x.scalbn_r(n, r).to_bits(), 255),
            9 => {
                let mut e = 12345;
                let q = x.frexp_r(&mut e, r);
                (q.to_bits(), if e == rustc_apfloat::ieee::Double::NAN.ilogb() { 255 } else { 254 })
            }
            10 => sv(x.next_up()),
            _ => sv(x.next_down()),
        }
    }) else { return };
    let st = if op == 8 || op == 9 { 255 } else { want.st };
    let wb = model::encode(&f, &want.v);
    ctx.seen(op, f.id, mode, want.cls, true, hash_args(op as u64, &args));
    ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), got.0, st_name(got.1)));
    if got != (wb, st) {
        ctx.fail(&c, &format!("got {:#x} (status {:#x}), expected {:#x} (status {:#x})", got.0, got.1, wb, st));
    }
    // Whatever happens, never signaling.
    let d = model::decode(&f, got.0);
    if !d.is_nan() {
        ctx.fail(&c, "a NaN operand gave a number");
    }
}

fn nan(ctx: &mut Ctx, f: &Fmt) -> u128 {
    gen::nan(&mut ctx.rng, f)
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 16 {
            // every pair with a NaN in it; every triple sampled
            for a in k as u128 * 16..k as u128 * 16 + 16 {
                for b in 0..256 {
                    for op in 0..12 {
                        let m = ctx.rng.below(5) as u8;
                        let cc = if ctx.rng.bool() { nan(ctx, &f) } else { ctx.rng.u128() & 255 };
                        one::<T>(ctx, op, &[a, b, cc], m, b as i32 - 128);
                    }
                }
            }
            ctx.note("exhaustive_8bit_pairs", 16 * 256);
            return;
        }
        for _ in 0..3000 {
            let op = ctx.rng.below(12) as usize;
            let mut a = [0u128; 3];
            for x in a.iter_mut() {
                *x = if ctx.rng.bool() { nan(ctx, &f) } else { gen::any(&mut ctx.rng, &f) };
            }
            if op == 6 && ctx.rng.chance(1, 4) {
                let (n1, n2) = (ctx.rng.bool(), ctx.rng.bool());
                a[0] = gen::inf(&f, n1);
                a[1] = gen::pack(&f, n2, 0, 0);
                if ctx.rng.bool() {
                    a.swap(0, 1);
                }
                a[2] = nan(ctx, &f);
            }
            if op >= 7 {
                a[0] = nan(ctx, &f);
            }
            let m = ctx.rng.below(5) as u8;
            let n = [0, 1, -1, 100, -100, i32::MIN, i32::MAX][ctx.rng.below(7) as usize];
            one::<T>(ctx, op, &a, m, n);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    let mut v = vec![];
    t.need(&mut v, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[0, 1, 2, 3, 4, 5, 6, 7], &[Cls::NanProp]);
    t.need(&mut v, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[0, 1, 2, 3, 4, 5, 7], &[Cls::Invalid]);
    t.need(&mut v, &[6], &[0, 1, 2, 3, 4, 5, 7], &[Cls::Special]);
    t.need_note(&mut v, "exhaustive_8bit_pairs", 2 * 65536);
    v
}

fn main() {
    run("C18", Spec {
        ops: OPS,
        rule: "an event is one operation with at least one NaN operand (any payload, quiet or signaling, either sign, any position; x87 pseudo-NaNs and unnormals included); result bits and status compared with the propagation rule; classes: nan-propagated = quiet only, invalid-or-divzero = a signaling operand, special = zero times infinity plus NaN; every event is non-trivial",
        quick: 8 * 1250,
        thorough: 8 * 40000,
        chunk,
        gate,
        before: nothing,
    })
}
