//! C06: rounding to integral values, integer test.
use mon::fp::*;
use mon::model::{self, Cls};
use mon::run::*;
use mon::{by_fmt, gen};

fn one<T: Fp>(ctx: &mut Ctx, a: u128) {
    let f = T::FMT;
    let va = model::decode(&f, a);
    for mode in model::MODES {
        let want = model::round_to_integral(&f, &va, mode);
        ev1::<T>(ctx, 0, "round_to_integral", a, mode, &want, |p, r| p.round_to_integral(r));
    }
    let c = case("is_integer", f.name, NOMODE, &[a]);
    let want = model::is_integer(&va);
    let fin = va.is_fin();
    ev_eq(ctx, 1, f.id, &c, if want { Cls::Exact } else { Cls::Special }, fin, &want, || lv::<T>(a).is_integer());
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    let k = ctx.chunk / NB;
    by_fmt!(id, T => {
        let f = T::FMT;
        if f.bits <= 16 && k < 64 {
            // every bit pattern
            let n = 1u128 << f.bits;
            for a in (k as u128 * n / 64)..((k + 1) as u128 * n / 64) {
                one::<T>(ctx, a);
            }
            ctx.note("exhaustive_patterns", (n / 64) as u64);
            return;
        }
        for _ in 0..1200 {
            let a = gen::integral_arg(&mut ctx.rng, &f);
            one::<T>(ctx, a);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Exact, RoundUp, RoundDown, Tie, ToZero, ZeroExact, NanProp]);
    t.need(&mut v, &[0], &[0, 1, 2, 3, 4, 5, 7], &[Inf]);
    t.need(&mut v, &[1], &all, &[Exact, Special]);
    t.need_note(&mut v, "exhaustive_patterns", 2 * 256 + 2 * 65536);
    v
}

fn main() {
    run("C06", Spec {
        ops: &["round_to_integral", "is_integer"],
        rule: "an event is one round_to_integral or is_integer call; all patterns of the 8- and 16-bit formats, boundary-directed random patterns elsewhere; non-trivial = finite non-zero operand",
        quick: 8 * 64 * 24,
        thorough: 8 * 64 * 400,
        chunk,
        gate,
        before: nothing,
    })
}
