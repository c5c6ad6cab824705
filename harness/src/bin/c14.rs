//! C14: default text output reads back to the identical value.
use mon::fp::*;
use mon::model::{self, Cls, V};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128, style: u64) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let w = (style >> 1) as usize;
    // style: bit 0 alternate; the rest a width (0 = none given, else width-1)
    let c = case("display", f.name, NOMODE, &[a, style as u128]);
    ctx.no_text();
    let Some(s) = ctx.sut(&c, || {
        let x = lv::<T>(a);
        match (w, style & 1) {
            (0, 0) => format!("{}", x),
            (0, _) => format!("{:#}", x),
            (w, 0) => format!("{:1$}", x, w - 1),
            (w, _) => format!("{:#1$}", x, w - 1),
        }
    }) else { return };
    let cls = match &va {
        V::Nan { .. } => Cls::NanProp,
        V::Inf(_) => Cls::Inf,
        V::Zero(_) => Cls::ZeroExact,
        V::Fin { .. } => if va.ilogb() < f.emin { Cls::SubExact } else { Cls::Exact },
    };
    ctx.seen((style & 1) as usize, f.id, NOMODE, cls, nontriv(cls), hash_args(style, &[a]));
    ctx.sample(|| format!("{} -> {:?}", c.describe(), s));
    match &va {
        V::Nan { .. } if s != "NaN" => return ctx.fail(&c, &format!("printed {:?}, expected NaN", s)),
        V::Inf(n) if s != if *n { "-Inf" } else { "+Inf" } => return ctx.fail(&c, &format!("printed {:?}, expected a signed Inf", s)),
        _ => {}
    }
    ctx.text(&s);
    let c = case("display+parse", f.name, NOMODE, &[a, style as u128]);
    let Some(back) = ctx.sut(&c, || T::from_str_r(&s, Round::NearestTiesToEven).map(|r| r.value.to_bits())) else { return };
    // x87 pseudo-denormals read back as their canonical encoding
    let ok = match (&va, &back) {
        (V::Nan { .. }, Ok(b)) => model::decode(&f, *b).is_nan(),
        (v, Ok(b)) => *b == model::encode(&f, v),
        _ => false,
    };
    if !ok {
        ctx.fail(&c, &format!("printed {:?}, which reads back as {:x?}", s, back));
    }
    ctx.no_text();
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits <= 16 && k < 64 {
            let n = (1u128 << f.bits) / 64;
            for a in n * k as u128..n * (k as u128 + 1) {
                one::<T>(ctx, a, 0);
                one::<T>(ctx, a, 1);
                let st = ctx.rng.below(70);
                one::<T>(ctx, a, st);
            }
            ctx.note("exhaustive_16bit_blocks", 1);
            return;
        }
        let n = if f.p > 60 { 25 } else { 250 };
        for _ in 0..n {
            let r = &mut ctx.rng;
            let mut a = match r.below(4) {
                0 => gen::any(r, &f),
                1 => gen::integral_arg(r, &f),
                2 => {
                    // the nearest value to a short decimal
                    let nd = 1 + r.below(17) as usize;
                    let d: Vec<u8> = (0..nd).map(|_| b'0' + r.below(10) as u8).collect();
                    let e = r.range(f.qmin() * 30 / 100, f.emax * 30 / 100);
                    let o = model::from_decimal(&f, r.bool(), &d, e / if r.bool() { 1 } else { 30 }, 0);
                    model::encode(&f, &o.v)
                }
                _ => gen::finite(r, &f),
            };
            if f.emax > 5000 && r.chance(4, 5) {
                // keep most wide values near one: extreme exponents print slowly
                a = gen::finite_in(r, &f, -400, 400);
            }
            let st = if r.bool() { r.below(2) } else { r.below(2 * 60) };
            one::<T>(ctx, a, st);
            if st != 0 {
                one::<T>(ctx, a, 0);
            }
        }
    })
}

fn before(ctx: &mut Ctx) {
    for id in 0..NB {
        by_fmt!(id, T => {
            for a in gen::specials(&T::FMT) {
                if T::FMT.emax > 5000 && model::decode(&T::FMT, a).is_fin() && ctx.rng.chance(9, 10) {
                    continue;
                }
                for st in [0, 1, 2, 3, 4, 5, 21] {
                    one::<T>(ctx, a, st);
                }
            }
        })
    }
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1], &all, &[Exact, SubExact, ZeroExact, NanProp]);
    t.need(&mut v, &[0, 1], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need_note(&mut v, "exhaustive_16bit_blocks", 4 * 64);
    v
}

fn main() {
    run("C14", Spec {
        ops: &["display", "display-alternate"],
        rule: "an event is one value printed (no precision; no width or any width; plain or alternate) and parsed back in nearest-even, bits compared; every value of the 8- and 16-bit formats, random values, integers and nearest-to-short-decimal values elsewhere; non-trivial = finite non-zero",
        quick: 8 * 680,
        thorough: 8 * 20000,
        chunk,
        gate,
        before,
    })
}
