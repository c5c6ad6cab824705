//! C13: the number grammar is decided exactly and never crashes.
use mon::fp::*;
use mon::grammar::{self, P};
use mon::model::{self, Cls};
use mon::run::*;
use mon::by_fmt;

fn one<T: Fp>(ctx: &mut Ctx, s: &str, mode: u8) {
    let f = T::FMT;
    ctx.text(s);
    let p = grammar::parse(s);
    let (op, want) = match &p {
        P::Reject => (0, None),
        _ => {
            let o = model::finish(&f, &grammar::exact(&f, &p), mode);
            let op = match p {
                P::Inf(_) => 1,
                P::Nan { .. } => 2,
                P::Dec { .. } => 3,
                _ => 4,
            };
            (op, Some((model::encode(&f, &o.v), o.st, o.cls)))
        }
    };
    let c = case("from_str_r", f.name, mode, &[]);
    let Some(got) = ctx.sut(&c, || T::from_str_r(s, rm(mode)).map(sv)) else { return };
    let cls = want.map_or(Cls::Special, |w| w.2);
    ctx.seen(op, f.id, mode, cls, s.len() > 1, hash_str(s));
    ctx.sample(|| format!("{} {:?} -> {:x?}", c.describe(), s, got));
    match (&want, &got) {
        (None, Err(_)) => {}
        (Some(w), Ok(g)) if (w.0, w.1) == *g => {}
        _ => ctx.fail(&c, &format!("got {:x?}, expected {:x?} (read as {:?})", got, want.map(|w| (w.0, st_name(w.1))), p)),
    }
}

fn chunk(ctx: &mut Ctx) {
    let id = ctx.chunk % NB;
    by_fmt!(id, T => {
        for _ in 0..1500 {
            let s = grammar::string(&mut ctx.rng);
            let mode = ctx.rng.below(5) as u8;
            one::<T>(ctx, &s, mode);
        }
        // exhaustive short strings over the alphabet, spread over the chunks: prefix fixed by the chunk
        let k = ctx.chunk / NB;
        let a = grammar::ALPHABET;
        let n = a.len() as u64;
        let tail = if ctx.thorough { 3 } else { 2 };
        if k < n * n {
            let pre: Vec<u8> = vec![a[(k / n) as usize], a[(k % n) as usize]];
            for len in 0..=tail {
                let total = n.pow(len);
                for mut i in 0..total {
                    let mut b = pre.clone();
                    for _ in 0..len {
                        b.push(a[(i % n) as usize]);
                        i /= n;
                    }
                    let s = String::from_utf8(b).unwrap();
                    one::<T>(ctx, &s, (i % 5) as u8);
                }
            }
            ctx.note("exhaustive_prefixes", 1);
        }
    })
}
fn before(ctx: &mut Ctx) {
    one::<ieee::Double>(ctx, "", 0);
    for c in 0..=0x10ffffu32 {
        if let Some(c) = char::from_u32(c) {
            let t = c.to_string();
            one::<ieee::Single>(ctx, &t, 0);
            if c as u32 <= 0x3000 {
                one::<ieee::Single>(ctx, &format!("1{}2", c), 0);
                one::<ieee::Single>(ctx, &format!("0x1{}p1", c), 0);
                one::<ieee::Half>(ctx, &format!("1e{}2", c), 0);
                one::<ieee::Half>(ctx, &format!("nan{}", c), 0);
            }
        }
    }
    ctx.note("single_char_strings", 0x110000 - 0x800);
    neighbours(ctx);
}

const FORMS: [&str; 30] = [
    "1", "-12.5", "+.5e+10", "0.e-3", "123e45", "7E", "8e-", "-0", "000.100", "12345678901234567890",
    "0x1p0", "-0X.8P-12", "+0xA.bp+3", "0x00.0p0", "0xffffffffffffffffffffffffffffffffffp1", "inf", "-inf", "Inf", "+Inf",
    "-Inf", "INFINITY", "-INFINITY", "nan", "-NaN", "snan", "Snan12", "nan0x1F", "-nan(077)", "sNaN(0xab)", "nan(9)",
];
const PIECES: [&str; 24] = [
    "0b", "0B1", "0o", "0d", "0x", "0X", "00", "1_0", "()", "((", "))", "(0)", "--", "+-", "-+", "++", "..", "ee", "pp", "\r\n", "inf",
    "nan", "f32", "\u{ff11}",
];
/// Every string one character, or one fragment, away from a form of the grammar.
fn neighbours(ctx: &mut Ctx) {
    let mut n = 0u64;
    for form in FORMS {
        let len = form.len();
        let mut go = |ctx: &mut Ctx, s: &str| {
            one::<ieee::Single>(ctx, s, (n % 5) as u8);
            one::<ieee::X87DoubleExtended>(ctx, s, (n / 5 % 5) as u8);
            n += 1;
        };
        for at in 0..=len {
            let (a, b) = form.split_at(at);
            for c in 0..=0x7fu8 {
                let c = c as char;
                go(ctx, &format!("{a}{c}{b}"));
                if !b.is_empty() {
                    go(ctx, &format!("{a}{c}{}", &b[1..]));
                }
            }
            for piece in PIECES {
                go(ctx, &format!("{a}{piece}{b}"));
                for skip in 1..=b.len().min(3) {
                    go(ctx, &format!("{a}{piece}{}", &b[skip..]));
                }
            }
            for skip in 1..=b.len() {
                go(ctx, &format!("{a}{}", &b[skip..]));
                go(ctx, &format!("{a}{}{b}", &b[..skip]));
            }
        }
        // the form in the other case, turned over, and twice
        let swap: String = form.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        go(ctx, &swap);
        go(ctx, &form.to_ascii_lowercase());
        go(ctx, &form.to_ascii_uppercase());
        go(ctx, &form.chars().rev().collect::<String>());
        for other in FORMS {
            go(ctx, &format!("{form}{other}"));
        }
        for bits in 0..1u32 << len.min(9) {
            let mix: String = form.char_indices().map(|(i, c)| if bits >> i.min(31) & 1 != 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            go(ctx, &mix);
        }
    }
    ctx.note("neighbours_of_valid_forms", n);
}

fn gate(t: &Totals) -> Vec<String> {
    use Cls::*;
    let mut v = vec![];
    let all = [0, 1, 2, 3, 4, 5, 6, 7];
    t.need(&mut v, &[0], &all, &[Special]);
    t.need(&mut v, &[1], &all, &[Inf]);
    t.need(&mut v, &[2], &all, &[NanProp]);
    t.need(&mut v, &[3, 4], &all, &[Exact, ZeroExact, OvfInf, ToZero]);
    t.need_note(&mut v, "exhaustive_prefixes", (grammar::ALPHABET.len() * grammar::ALPHABET.len() * 8) as u64);
    v
}

fn main() {
    run("C13", Spec {
        ops: &["rejected", "infinity", "nan", "decimal", "hexadecimal"],
        rule: "an event is one string parsed in one format and mode: accepted or rejected, and for accepted strings bits and status, compared with an independent recogniser; every string of up to 4 (thorough 5) characters over a 26-character alphabet in every format, every one-character string, every string one character or fragment away from 30 forms of the grammar, glued fragments, near-valid edits and random Unicode; non-trivial = at least two bytes",
        quick: 8 * 26 * 26 + 8 * 600,
        thorough: 8 * 26 * 26 + 8 * 40000,
        chunk,
        gate,
        before,
    })
}
