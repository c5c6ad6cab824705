//! C24: operation histories on live values, against a shadow that only knows encodings.
use mon::fp::*;
use mon::model::{self, V};
use mon::ops::{self, *};
use mon::run::*;
use mon::{by_fmt, gen, grammar};

const REGS: usize = 6;

fn pick_op(ctx: &mut Ctx) -> usize {
    let r = &mut ctx.rng;
    match r.below(20) {
        0..=8 => r.below(8) as usize,           // arithmetic
        9 => ADD + r.below(2) as usize,
        10 | 11 => NEXT_UP + r.below(4) as usize,
        12 => CONVERT,
        13 => TEXT,
        14 => FROM_U + r.below(4) as usize,
        _ => r.below(COUNT as u64) as usize,
    }
}

fn history<T: Fp + Conv>(ctx: &mut Ctx, len: usize) {
    let f = T::FMT;
    let mut bits = [0u128; REGS];
    let mut live: [T; REGS] = [T::ZERO; REGS];
    let mut trace: Vec<String> = vec![];
    macro_rules! load {
        ($i:expr, $b:expr) => {{
            let b: u128 = $b;
            let c = case("from_bits", f.name, NOMODE, &[b]);
            let Some(v) = ctx.sut(&c, || T::from_bits(b)) else { return };
            live[$i] = v;
            bits[$i] = model::encode(&f, &model::decode(&f, b));
            trace.push(format!("r{} = from_bits({:#x})", $i, b));
        }};
    }
    // Some histories live in a narrow exponent window so that values interact.
    let narrow = ctx.rng.chance(1, 3);
    for i in 0..REGS {
        let b = if narrow { gen::finite_in(&mut ctx.rng, &f, -8, 8) } else { gen::any(&mut ctx.rng, &f) };
        load!(i, b);
    }
    for _ in 0..len {
        let op = pick_op(ctx);
        let r = &mut ctx.rng;
        let (i, j, k, d) = (r.below(REGS as u64) as usize, r.below(REGS as u64) as usize, r.below(REGS as u64) as usize, r.below(REGS as u64) as usize);
        let mode = r.below(5) as u8;
        if r.chance(1, 24) {
            let b = if narrow && r.chance(3, 4) { gen::finite_in(r, &f, -8, 8) } else { gen::any(r, &f) };
            load!(i, b);
        }
        let r = &mut ctx.rng;
        let mut s = String::new();
        let n: u128 = match op {
            SCALBN => {
                let w = f.emax - f.qmin();
                (match r.below(4) {
                    0 => r.range(-w - 2, w + 2),
                    1 => r.range(-f.p, f.p),
                    2 => match model::decode(&f, bits[i]) {
                        v @ V::Fin { .. } => f.emin - v.ilogb() + r.range(-f.p - 2, 2),
                        _ => 1,
                    },
                    _ => *r.pick(&[i32::MIN as i64, i32::MAX as i64, 0, 1, -1]),
                }) as i32 as u32 as u128
            }
            FROM_U | FROM_I => {
                let x = gen::int_arg(r, &f);
                if r.bool() { x } else { x.wrapping_neg() }
            }
            TO_U | TO_I if r.bool() => {
                // widths near the magnitude of the value
                let e = match model::decode(&f, bits[i]) {
                    v @ V::Fin { .. } => v.ilogb(),
                    _ => 5,
                };
                let w = (e + r.range(-1, 3)).clamp(1, 128);
                ((w as u128 - 1) << 1) | r.below(2) as u128
            }
            TEXT => (if text_heavy(&f, bits[i]) && !r.chance(1, 60) { continue } else { r.u64() }) as u128,
            PARSE => {
                s = grammar::string(r);
                0
            }
            QNAN | SNAN => gen::pattern(r, 128),
            _ => r.u128(),
        };
        let want = ops::expect(&f, op, bits[i], bits[j], bits[k], n, mode, &s);
        let args = Args { a: live[i], b: live[j], c: live[k], n, mode };
        let c = case(ops::NAMES[op], f.name, if takes_mode(op) { mode } else { NOMODE }, &[bits[i], bits[j], bits[k], n]);
        if op == PARSE {
            ctx.text(&s);
        }
        trace.push(format!("r{} = {}(r{}, r{}, r{}, {:#x}) mode {}", d, ops::NAMES[op], i, j, k, n, mode));
        let hist = |t: &[String]| t.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("; ");
        let got = match ctx.sut_raw(&c, || {
            let (v, st, x) = ops::sut(op, &args, &s);
            (v, v.to_bits(), st, x)
        }) {
            Ok(g) => g,
            Err(m) => {
                ctx.fail(&c, &format!("panicked: {} [history: {}]", m, hist(&trace)));
                return;
            }
        };
        ctx.seen(op, f.id, c.mode, want.cls, nontriv(want.cls), hash_args(op as u64, &c.args));
        ctx.sample(|| format!("{} -> {:#x} status {:#x} extra {:#x}", c.describe(), got.1, got.2, got.3));
        if !want.ok(&f, (got.1, got.2, got.3), op) {
            ctx.fail(&c, &format!("got {:#x} status {:#x} extra {:#x}, expected {} [history: {}]", got.1, got.2, got.3, want.show(), hist(&trace)));
            return;
        }
        // The same step on freshly decoded operands must be indistinguishable.
        if ctx.rng.chance(1, 3) {
            let (ba, bb, bc) = (bits[i], bits[j], bits[k]);
            let again = ctx.sut_raw(&c, || {
                let g = Args { a: T::from_bits(ba), b: T::from_bits(bb), c: T::from_bits(bc), n, mode };
                let (v, st, x) = ops::sut(op, &g, &s);
                (v, v.to_bits(), st, x)
            });
            ctx.note("re-decoded steps", 1);
            match again {
                Ok(g2) if (g2.1, g2.2, g2.3) == (got.1, got.2, got.3) && g2.0.bitwise_eq(got.0) => {}
                o => {
                    let o = o.map(|x| (x.1, x.2, x.3));
                    ctx.fail(&c, &format!("live operands give {:x?}, re-decoded ones {:x?} [history: {}]", (got.1, got.2, got.3), o, hist(&trace)));
                    return;
                }
            }
        }
        if op == PARSE {
            ctx.no_text();
        }
        live[d] = got.0;
        bits[d] = got.1;
        ctx.note("steps", 1);
        // The stored value against its own encoding: order, equality, text.
        if ctx.rng.chance(1, 8) {
            let b = bits[d];
            let x = live[d];
            let heavy = text_heavy(&f, b);
            let c = case("live value vs from_bits(to_bits)", f.name, NOMODE, &[b]);
            let same = ctx.sut(&c, || {
                let y = T::from_bits(b);
                x.bitwise_eq(y)
                    && (x == y || x.is_nan())
                    && x.category() == y.category()
                    && x.is_negative() == y.is_negative()
                    && x.ilogb() == y.ilogb()
                    && x.is_denormal() == y.is_denormal()
                    && x.is_signaling() == y.is_signaling()
                    && (heavy || format!("{}", x) == format!("{}", y))
            });
            match same {
                None => return,
                Some(true) => ctx.note("representation checks", 1),
                Some(false) => {
                    ctx.fail(&c, &format!("a live value differs from its own encoding read back [history: {}]", hist(&trace)));
                    return;
                }
            }
        }
    }
    ctx.note("histories", 1);
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        for _ in 0..4 {
            let len = if T::FMT.p > 60 { 250 } else { 400 };
            history::<T>(ctx, len);
        }
    })
}

fn gate(t: &Totals) -> Vec<String> {
    use model::Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    for op in 0..COUNT {
        for f in all {
            if t.mode(op, f, 5) + (0..5).map(|m| t.mode(op, f, m)).sum::<u64>() == 0 {
                v.push(format!("{} never ran in format {}", ops::NAMES[op], f));
            }
        }
    }
    t.need(&mut v, &[ADD, SUB, MUL, DIV, FMA], &all, &[Exact, RoundUp, RoundDown]);
    t.need(&mut v, &[CONVERT], &[0, 1, 2, 3, 4, 7], &[Exact, RoundUp, RoundDown]);
    t.need_note(&mut v, "histories", 8 * 100);
    t.need_note(&mut v, "re-decoded steps", 100_000);
    t.need_note(&mut v, "representation checks", 30_000);
    v
}

fn main() {
    run("C24", Spec {
        ops: ops::NAMES,
        rule: "an event is one step of a history of up to 400 operations over six live registers (any public operation, any mode, integer widths 1..128, generated strings); each step's bits, status, flags, integers and text are compared with a shadow that knows only the encodings, a third of the steps are repeated on re-decoded operands, and stored values are compared with their own encoding read back; non-trivial = the step computed a finite non-zero value",
        quick: 8 * 3000,
        thorough: 8 * 200000,
        chunk,
        gate,
        before: nothing,
    })
}
