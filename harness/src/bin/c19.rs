//! C19: scaling by powers of two and exponent extraction.
use mon::fp::*;
use mon::model::{self, V};
use mon::run::*;
use mon::{by_fmt, gen};

fn scal<T: Fp>(ctx: &mut Ctx, a: u128, n: i32) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    for mode in model::MODES {
        let o = model::scalbn(&f, &va, n as i64, mode);
        let w = model::encode(&f, &o.v);
        let c = case("scalbn_r", f.name, mode, &[a, n as u32 as u128]);
        ev_eq(ctx, 0, f.id, &c, o.cls, nontriv(o.cls), &w, || lv::<T>(a).scalbn_r(n, rm(mode)).to_bits());
        if mode == 0 {
            let c = case("scalbn", f.name, NOMODE, &[a, n as u32 as u128]);
            ev_eq(ctx, 0, f.id, &c, o.cls, false, &w, || lv::<T>(a).scalbn(n).to_bits());
        }
    }
}

fn fr<T: Fp>(ctx: &mut Ctx, a: u128) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let cls = model::vcls(&f, &va);
    let (inf, nan, zero) = (i32::MAX, i32::MIN, i32::MIN + 1);
    let want = match &va {
        V::Nan { .. } => nan,
        V::Inf(_) => inf,
        V::Zero(_) => zero,
        v => v.ilogb() as i32,
    };
    let c = case("ilogb", f.name, NOMODE, &[a]);
    ev_eq(ctx, 1, f.id, &c, cls, nontriv(cls), &want, || lv::<T>(a).ilogb());
    let (wv, we) = match &va {
        V::Nan { .. } => (model::nan_result(&f, &[&va]).unwrap().v, nan),
        V::Inf(_) => (va.clone(), inf),
        V::Zero(_) => (va.clone(), 0),
        V::Fin { neg, m, .. } => (V::Fin { neg: *neg, m: m.clone(), e: -m.bits() }, va.ilogb() as i32 + 1),
    };
    let want = (model::encode(&f, &wv), we);
    let mode = ctx.rng.below(5) as u8;
    let c = case("frexp_r", f.name, mode, &[a]);
    ev_eq(ctx, 2, f.id, &c, cls, nontriv(cls), &want, || {
        let mut e = 77;
        let r = lv::<T>(a).frexp_r(&mut e, rm(mode));
        (r.to_bits(), e)
    });
    let c = case("frexp", f.name, NOMODE, &[a]);
    ev_eq(ctx, 2, f.id, &c, cls, false, &want, || {
        let mut e = -3;
        let r = lv::<T>(a).frexp(&mut e);
        (r.to_bits(), e)
    });
    if va.is_fin() {
        // recombination
        let c = case("frexp+scalbn", f.name, NOMODE, &[a]);
        ev_eq(ctx, 3, f.id, &c, cls, true, &model::encode(&f, &va), || {
            let mut e = 0;
            let r = lv::<T>(a).frexp(&mut e);
            r.scalbn(e).to_bits()
        });
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits == 8 && k < 32 {
            for a in k as u128 * 8..k as u128 * 8 + 8 {
                for n in -90..=90 {
                    scal::<T>(ctx, a, n);
                }
                for n in [i32::MIN, i32::MIN + 1, -65536, -1000, 1000, 65535, i32::MAX - 1, i32::MAX] {
                    scal::<T>(ctx, a, n);
                }
                fr::<T>(ctx, a);
            }
            ctx.note("exhaustive_8bit_blocks", 1);
            return;
        }
        if f.bits <= 16 && k < 64 {
            let n = (1u128 << f.bits) / 64;
            for a in n * k as u128..n * (k as u128 + 1) {
                fr::<T>(ctx, a);
            }
            ctx.note("exhaustive_frexp_blocks", 1);
            return;
        }
        let range = f.emax - f.qmin();
        for _ in 0..1200 {
            let r = &mut ctx.rng;
            let a = gen::any(r, &f);
            let top = match model::decode(&f, a) {
                v @ V::Fin { .. } => v.ilogb(),
                _ => 0,
            };
            let n = match r.below(8) {
                0 => r.range(-range - 5, range + 5),
                1 | 2 => f.emin - top + r.range(-f.p - 3, 3),      // around the subnormal range
                3 => f.qmin() - top + r.range(-3, 3),             // at the very bottom
                4 => f.emax - top + r.range(-2, 2),               // at the top
                5 => r.range(-range - 5, range + 5) / 8,
                6 => if r.bool() { range + r.range(-3, 3) } else { -range + r.range(-3, 3) },
                _ => *r.pick(&[i32::MIN as i64, i32::MIN as i64 + 1, -1 << 20, -65536, -32769, -32768, 32767, 32768, 65536, 1 << 20, i32::MAX as i64 - 1, i32::MAX as i64]),
            };
            scal::<T>(ctx, a, n as i32);
            fr::<T>(ctx, a);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use model::Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, SubExact, SubInexact, ToZero, OvfInf, OvfMax, ZeroExact, NanProp, SubToNormal]);
    t.need(&mut v, &[1, 2], &all, &[Exact, SubExact, ZeroExact, NanProp]);
    t.need(&mut v, &[3], &all, &[Exact, SubExact]);
    t.need(&mut v, &[0, 1, 2], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need_note(&mut v, "exhaustive_8bit_blocks", 64);
    v
}

fn main() {
    run("C19", Spec {
        ops: &["scalbn", "ilogb", "frexp", "recombine"],
        rule: "an event is one scaling (5 modes), exponent query, fraction extraction or recombination, compared with exact arithmetic; shifts aim at the subnormal range, the range edges, the clamp boundary and 32-bit extremes; all 8-bit values x all relevant shifts, all 16-bit values for frexp; non-trivial = finite non-zero",
        quick: 8 * 1600,
        thorough: 8 * 40000,
        chunk,
        gate,
        before: nothing,
    })
}
