//! C27: user-defined formats get the same guarantees as the built-in ones.
use mon::fp::*;
use mon::model::{self, Cls, Fmt, V};
use mon::ops::{self, *};
use mon::run::*;
use mon::{by_custom, gen};

const XCONV: usize = 32;

fn step<T: Fp + Conv>(ctx: &mut Ctx, op: usize, a: u128, b: u128, c3: u128, n: u128, mode: u8, s: &str) {
    let f = T::FMT;
    let want = ops::expect(&f, op, a, b, c3, n, mode, s);
    let c = case(ops::NAMES[op], f.name, if takes_mode(op) { mode } else { NOMODE }, &[a, b, c3, n]);
    if op == PARSE {
        ctx.text(s);
    }
    if let Some(got) = ctx.sut(&c, || {
        let g = Args { a: lv::<T>(a), b: lv2::<T>(b), c: lv3::<T>(c3), n, mode };
        let (v, st, x) = ops::sut(op, &g, s);
        (v.to_bits(), st, x)
    }) {
        ctx.seen(op, f.id, c.mode, want.cls, nontriv(want.cls), hash_args(hash_str(s), &c.args));
        ctx.sample(|| format!("{} -> {:#x} status {:#x} extra {:#x}", c.describe(), got.0, got.1, got.2));
        if !want.ok(&f, got, op) {
            ctx.fail(&c, &format!("got {:#x} status {:#x} extra {:#x}, expected {}", got.0, got.1, got.2, want.show()));
        }
    }
    if op == PARSE {
        ctx.no_text();
    }
}

/// Conversion between two user-defined formats.
fn cross<T: Fp, U: Fp>(ctx: &mut Ctx)
where
    T: FloatConvert<U>,
{
    let (f, u) = (T::FMT, U::FMT);
    let a = gen::convert_arg(&mut ctx.rng, &f, &u);
    let va = model::decode(&f, a);
    for mode in model::MODES {
        let (want, lost) = model::convert(&f, &u, &va, mode);
        let c = case("convert_r", f.name, mode, &[a, u.id as u128]);
        if let Some(got) = ctx.sut(&c, || {
            let mut l = a & 1 == 0;
            let r: StatusAnd<U> = lv::<T>(a).convert_r(rm(mode), &mut l);
            (r.value.to_bits(), r.status.bits(), l)
        }) {
            ctx.seen(XCONV, f.id, mode, want.cls, nontriv(want.cls), hash_args(u.id as u64, &[a]));
            let loose = va.is_nan() && (f.nanonly || u.nanonly);
            let wb = model::encode(&u, &want.v);
            let ok = if loose {
                model::decode(&u, got.0).is_nan() && got.1 == want.st
            } else {
                got == (wb, want.st, lost)
            };
            if !ok {
                ctx.fail(&c, &format!("into {}: got {:#x} {} loses {}, expected {:#x} {} loses {}", u.name, got.0, st_name(got.1), got.2, wb, st_name(want.st), lost));
            }
        }
    }
}

/// Constants and extremes of the format.
fn constants<T: Fp>(ctx: &mut Ctx) {
    let f = T::FMT;
    let c = case("constants", f.name, NOMODE, &[]);
    let e = |v: &V| model::encode(&f, v);
    let fin = |m: u128, q: i64| V::Fin { neg: false, m: mon::big::Big::from_u128(m), e: q };
    let want = (
        (f.bits as usize, f.p as usize, f.emax as i32, f.emin as i32),
        [e(&V::Zero(false)), e(&model::infinity(&f, false)), e(&model::default_nan(&f, false)), e(&fin(f.max_sig(), f.emax - f.p + 1)), e(&fin(1, f.qmin())), e(&fin(1, f.emin))],
    );
    ev_eq(ctx, QUERY, f.id, &c, Cls::Exact, true, &want, || {
        (
            (T::BITS, T::PRECISION, T::MAX_EXP, T::MIN_EXP),
            [T::ZERO.to_bits(), T::INFINITY.to_bits(), T::NAN.to_bits(), T::largest().to_bits(), T::SMALLEST.to_bits(), T::smallest_normalized().to_bits()],
        )
    });
}

const BLOCKS: u64 = 32;

/// Every pair (and, for the 6-bit formats, every triple) of a tiny format.
fn exhaustive<T: Fp + Conv>(ctx: &mut Ctx, block: u64, triples: bool) {
    let f = T::FMT;
    let n = 1u128 << f.bits;
    let (lo, hi) = (n * block as u128 / BLOCKS as u128, n * (block as u128 + 1) / BLOCKS as u128);
    for a in lo..hi {
        for op in 0..COUNT {
            match (op, arity(op)) {
                (SCALBN, _) => {
                    for k in -40..=40i32 {
                        for mode in model::MODES {
                            step::<T>(ctx, op, a, 0, 0, k as u32 as u128, mode, "");
                        }
                    }
                }
                (TO_U | TO_I, _) => {
                    for k in 0..40 {
                        for mode in model::MODES {
                            step::<T>(ctx, op, a, 0, 0, k, mode, "");
                        }
                    }
                }
                (CONVERT, _) => {
                    for id in 0..NB {
                        for mode in model::MODES {
                            step::<T>(ctx, op, a, 0, 0, id as u128, mode, "");
                        }
                    }
                }
                (TEXT, _) => {
                    for k in 0..40u128 {
                        step::<T>(ctx, op, a, 0, 0, k & 7 | (k >> 3) << 8, 0, "");
                    }
                }
                (PARSE | FROM_U | FROM_I | QNAN | SNAN, _) => {}
                (_, 1) => {
                    for mode in if takes_mode(op) { &model::MODES[..] } else { &[0] } {
                        step::<T>(ctx, op, a, 0, 0, 0, *mode, "");
                    }
                }
                (_, 2) => {
                    for b in 0..n {
                        for mode in if takes_mode(op) { &model::MODES[..] } else { &[0] } {
                            step::<T>(ctx, op, a, b, 0, 0, *mode, "");
                        }
                    }
                }
                (FMA, _) if triples => {
                    for b in 0..n {
                        for c in 0..n {
                            for mode in model::MODES {
                                step::<T>(ctx, op, a, b, c, 0, mode, "");
                            }
                        }
                    }
                    ctx.note("all addends of one product row", n as u64);
                }
                _ => {}
            }
        }
        if ctx.stopped() {
            return;
        }
    }
    if block == 0 {
        // every integer around the range, both ways
        for i in 0..4200u128 {
            for mode in model::MODES {
                step::<T>(ctx, FROM_U, 0, 0, 0, i, mode, "");
                step::<T>(ctx, FROM_I, 0, 0, 0, i.wrapping_neg(), mode, "");
            }
        }
    }
    ctx.note("exhaustive_blocks", 1);
}

const TINY: [u64; 7] = [0, 1, 2, 3, 13, 14, 15];

fn chunk(ctx: &mut Ctx) {
    let nx = TINY.len() as u64 * BLOCKS;
    if ctx.chunk < nx {
        let id = TINY[(ctx.chunk / BLOCKS) as usize];
        let thorough = ctx.thorough;
        let block = ctx.chunk % BLOCKS;
        by_custom!(id, T => exhaustive::<T>(ctx, block, thorough && T::FMT.bits == 8 || T::FMT.bits <= 7));
        return;
    }
    let k = ctx.chunk - nx;
    let id = k % NC;
    by_custom!(id, T => {
        let f: Fmt = T::FMT;
        if k < NC {
            constants::<T>(ctx);
            for a in gen::specials(&f) {
                for op in [NEXT_UP, NEXT_DOWN, NEG, ABS, QUERY, INVERSE, RECODE, FREXP, CONVERT, TO_U, TO_I, RTI] {
                    for mode in if takes_mode(op) { &model::MODES[..] } else { &[0] } {
                        let n = ctx.rng.u128();
                        step::<T>(ctx, op, a, 0, 0, n, *mode, "");
                    }
                }
            }
        }
        for _ in 0..30 {
            for op in 0..COUNT {
                let (a, b, c, n, s) = ops::args_for(&mut ctx.rng, &f, op);
                if takes_mode(op) && op != TEXT {
                    for mode in model::MODES {
                        step::<T>(ctx, op, a, b, c, n, mode, &s);
                    }
                } else {
                    step::<T>(ctx, op, a, b, c, n, 0, &s);
                }
            }
            cross::<T, ieee::IeeeFloat<Tf32>>(ctx);
            cross::<T, ieee::IeeeFloat<N16e6>>(ctx);
            cross::<T, ieee::IeeeFloat<C70e10>>(ctx);
            cross::<T, ieee::IeeeFloat<C7e4>>(ctx);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let ids: Vec<u8> = (10..29).collect();
    t.need(&mut v, &[ADD, SUB, MUL, DIV, FMA], &ids, &[Exact, RoundUp, RoundDown, OvfInf, OvfMax]);
    t.need(&mut v, &[MUL, DIV, FMA], &ids, &[SubExact, SubInexact]);
    t.need(&mut v, &[RTI], &ids, &[Exact, RoundUp]);
    t.need(&mut v, &[TO_U, TO_I, FROM_U, CONVERT, PARSE, XCONV], &ids, &[Exact]);
    for op in 0..COUNT {
        for &f in &ids {
            if (0..6).map(|m| t.mode(op, f, m)).sum::<u64>() == 0 {
                v.push(format!("{} never ran in format {}", ops::NAMES[op], f));
            }
        }
    }
    t.need_note(&mut v, "exhaustive_blocks", TINY.len() as u64 * BLOCKS);
    t.need_note(&mut v, "all addends of one product row", 2 * 64 * 64);
    v
}

const NAMES33: [&str; 33] = {
    let mut a = ["convert_r between user-defined formats"; 33];
    let mut i = 0;
    while i < 32 {
        a[i] = ops::NAMES[i];
        i += 1;
    }
    a
};

fn main() {
    run("C27", Spec {
        ops: &NAMES33,
        rule: "an event is one operation on a format declared by the monitor itself (19 formats of 6 to 128 bits, six of them without infinities), compared with the exact oracle; all operand pairs of the tiny formats, all triples of the 6- and 7-bit ones (8-bit ones too in the thorough tier), directed operands for the others; non-trivial = a finite non-zero value was computed",
        quick: TINY.len() as u64 * BLOCKS + NC * 300,
        thorough: TINY.len() as u64 * BLOCKS + NC * 20000,
        chunk,
        gate,
        before: nothing,
    })
}
