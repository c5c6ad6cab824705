//! Judging the library by an outside implementation (the processor, the C library): bits and flags.
use crate::fp::*;
use crate::host::{IE, OE, PE, UE, ZE};
use crate::model::{self, Cls};
use crate::run::*;

const X: model::Fmt = model::X87;

pub fn exp_field(f: &model::Fmt, b: u128) -> u128 {
    b >> f.fw() & f.exp_mask()
}
pub fn is_nan(f: &model::Fmt, b: u128) -> bool {
    let s = b & f.sig_mask() & if f.x87 { !(1 << 63) } else { !0 };
    exp_field(f, b) == f.exp_mask() && s != 0
}
pub fn is_inf(f: &model::Fmt, b: u128) -> bool {
    exp_field(f, b) == f.exp_mask() && !is_nan(f, b)
}
/// 80-bit patterns a processor accepts as numbers, infinities and NaNs.
pub fn canonical(b: u128) -> bool {
    let int = b >> 63 & 1 == 1;
    if exp_field(&X, b) == 0 { !int } else { int }
}
/// The library's flags, from the outside ones and the delivered value. The library reports
/// OVERFLOW only with a delivered infinity and UNDERFLOW by the delivered value; a result rounded
/// up to the smallest normal number is left open.
pub fn flags(f: &model::Fmt, r: u128, h: u32, lib: u8) -> u8 {
    let min_normal = exp_field(f, r) == 1 && r & f.sig_mask() & if f.x87 { !(1 << 63) } else { !0 } == 0;
    let mut s = 0;
    if h & IE != 0 {
        s |= 1;
    }
    if h & ZE != 0 {
        s |= 2;
    }
    if h & OE != 0 && is_inf(f, r) {
        s |= 4;
    }
    if min_normal {
        s |= lib & 8;
    } else if h & UE != 0 {
        s |= 8;
    }
    if h & PE != 0 {
        s |= 16;
    }
    s
}
pub fn class(f: &model::Fmt, r: u128, h: u32) -> Cls {
    let e = exp_field(f, r);
    if is_nan(f, r) {
        if h & IE != 0 { Cls::Invalid } else { Cls::NanProp }
    } else if e == f.exp_mask() {
        if h & OE != 0 { Cls::OvfInf } else { Cls::Inf }
    } else if h & OE != 0 {
        Cls::OvfMax
    } else if r & !f.sign_bit() == 0 {
        if h & PE != 0 { Cls::ToZero } else { Cls::ZeroExact }
    } else if e == 0 {
        if h & PE != 0 { Cls::SubInexact } else { Cls::SubExact }
    } else if h & PE != 0 {
        Cls::RoundUp
    } else {
        Cls::Exact
    }
}
/// One call whose answer is a number of format `f`; `h` is the outside answer.
pub fn same(ctx: &mut Ctx, op: usize, f: &model::Fmt, c: &Case, h: (u128, u32), with_flags: bool, got: impl FnOnce() -> (u128, u8)) {
    let Some((b, st)) = ctx.sut(c, got) else { return };
    let cls = class(f, h.0, h.1);
    ctx.seen(op, f.id, c.mode, cls, nontriv(cls), hash_args(op as u64, &c.args[..c.n as usize]));
    ctx.sample(|| format!("{} -> {:#x} {}", c.describe(), b, st_name(st)));
    let ok = if is_nan(f, h.0) { is_nan(f, b) } else { b == h.0 };
    if !ok {
        ctx.fail(c, &format!("got {:#x}, the outside answer is {:#x}", b, h.0));
    }
    if with_flags {
        let w = flags(f, h.0, h.1, st);
        if st != w {
            ctx.fail(c, &format!("got {:#x} with {}, the outside flags ({:#x}) mean {}", b, st_name(st), h.1, st_name(w)));
        }
    }
}
pub fn answer<R: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, op: usize, f: &model::Fmt, c: &Case, want: R, f2: impl FnOnce() -> R) {
    ev_eq(ctx, op, f.id, c, Cls::Exact, true, &want, f2);
}
