//! C16: bit patterns decode and encode faithfully and classify correctly.
use mon::fp::*;
use mon::model::{self, Class, V};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp + FloatConvert<ieee::Quad>>(ctx: &mut Ctx, a: u128) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    let cls = model::vcls(&f, &va);
    let enc = model::encode(&f, &va);
    // round trip (and idempotence of the re-encoding)
    let c = case("from_bits+to_bits", f.name, NOMODE, &[a]);
    ev_eq(ctx, 0, f.id, &c, cls, nontriv(cls), &(enc, enc), || {
        let b = T::from_bits(a).to_bits();
        (b, T::from_bits(b).to_bits())
    });
    // class and sign
    let c = case("classify", f.name, NOMODE, &[a]);
    let k = model::class(&f, &va);
    let want = (
        match k {
            Class::Zero => Category::Zero,
            Class::Inf => Category::Infinity,
            Class::Qnan | Class::Snan => Category::NaN,
            _ => Category::Normal,
        },
        va.neg(),
        k == Class::Sub,
        k == Class::Snan,
    );
    ev_eq(ctx, 1, f.id, &c, cls, nontriv(cls), &want, || {
        let x = lv::<T>(a);
        (x.category(), x.is_negative(), x.is_denormal(), x.is_signaling())
    });
    // the decoded value, read out through the widest format (always exact)
    let (q, _) = model::convert(&f, &model::QUAD, &va, 0);
    let want = model::encode(&model::QUAD, &q.v);
    let c = case("value", f.name, NOMODE, &[a]);
    ev_eq(ctx, 2, f.id, &c, cls, nontriv(cls), &want, || {
        let q: ieee::Quad = lv::<T>(a).convert(&mut false).value;
        q.to_bits()
    });
    // the decoded value as an exponent
    if let V::Fin { .. } = va {
        let c = case("ilogb", f.name, NOMODE, &[a]);
        ev_eq(ctx, 3, f.id, &c, cls, true, &(va.ilogb() as i32), || lv::<T>(a).ilogb());
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits <= 16 && k < 64 {
            let n = (1u128 << f.bits) / 64;
            for a in n * k as u128..n * (k as u128 + 1) {
                one::<T>(ctx, a);
            }
            ctx.note("exhaustive_16bit_blocks", 1);
            return;
        }
        if k == 64 {
            for a in gen::specials(&f) {
                one::<T>(ctx, a);
            }
            return;
        }
        for i in 0..4000 {
            let r = &mut ctx.rng;
            let a = match i % 4 {
                0 => gen::any(r, &f),
                1 => r.u128() & f.all_mask(),
                2 => {
                    // any exponent field with a structured significand (x87: any integer bit)
                    let ex = match r.below(4) { 0 => 0, 1 => f.exp_mask(), 2 => f.exp_mask() - 1, _ => r.u128() };
                    let s = gen::pattern(r, f.fw() as i64);
                    gen::pack(&f, r.bool(), ex, s)
                }
                _ => {
                    let s = gen::special(r, &f);
                    s ^ 1u128 << r.below(f.bits as u64)
                }
            };
            one::<T>(ctx, a);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use model::Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0, 1, 2], &all, &[Exact, SubExact, ZeroExact, NanProp]);
    t.need(&mut v, &[0, 1, 2], &[0, 1, 2, 3, 4, 5, 7], &[Inf, Invalid]);
    t.need_note(&mut v, "exhaustive_16bit_blocks", 4 * 64);
    v
}

fn main() {
    run("C16", Spec {
        ops: &["round-trip", "classify", "value", "exponent"],
        rule: "an event is one bit pattern decoded: re-encoding (twice), category/sign/denormal/signaling, value read out through Quad, exponent; every pattern of the 8- and 16-bit formats, random, structured and single-bit-flipped special patterns elsewhere incl. all x87 non-canonical families; non-trivial = finite non-zero",
        quick: 8 * 2000,
        thorough: 8 * 50000,
        chunk,
        gate,
        before: nothing,
    })
}
