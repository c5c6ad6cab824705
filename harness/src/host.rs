//! The processor as an oracle: SSE/AVX scalar arithmetic, FMA, F16C and the x87 unit, under a
//! chosen rounding mode, with the exception flags each instruction raised.
//! Flags are IE 1, DE 2, ZE 4, OE 8, UE 16, PE 32 in both units.
#![cfg(target_arch = "x86_64")]
use std::arch::asm;

pub const IE: u32 = 1;
pub const ZE: u32 = 4;
pub const OE: u32 = 8;
pub const UE: u32 = 16;
pub const PE: u32 = 32;

/// Rounding control for the library's mode numbers (nearest-even, up, down, zero).
fn rc(mode: u8) -> u32 {
    [0, 2, 1, 3][mode as usize]
}
fn mx(mode: u8) -> u32 {
    0x1f80 | rc(mode) << 13
}
fn cw(mode: u8) -> u16 {
    0x37f | (rc(mode) as u16) << 10
}

macro_rules! sse2 {
    ($name:ident, $t:ty, $ins:expr) => {
        pub fn $name(a: $t, b: $t, mode: u8) -> ($t, u32) {
            let (mut s, mut m, mut r) = (0u32, mx(mode), <$t>::to_bits(a));
            let b = <$t>::to_bits(b);
            unsafe {
                asm!("stmxcsr [{s}]", "ldmxcsr [{m}]", $ins, "stmxcsr [{m}]", "ldmxcsr [{s}]",
                    s = in(reg) &mut s, m = in(reg) &mut m, r = in(reg) &mut r, b = in(reg) &b, out("xmm0") _, out("xmm1") _);
            }
            (<$t>::from_bits(r), m & 63)
        }
    };
}
macro_rules! pair {
    ($d:ident, $s:ident, $op:literal) => {
        sse2!($d, f64, concat!("movsd xmm0, qword ptr [{r}]\n", $op, "sd xmm0, qword ptr [{b}]\nmovsd qword ptr [{r}], xmm0"));
        sse2!($s, f32, concat!("movss xmm0, dword ptr [{r}]\n", $op, "ss xmm0, dword ptr [{b}]\nmovss dword ptr [{r}], xmm0"));
    };
}
pair!(add_d, add_s, "add");
pair!(sub_d, sub_s, "sub");
pair!(mul_d, mul_s, "mul");
pair!(div_d, div_s, "div");
sse2!(rint_d, f64, "movsd xmm0, qword ptr [{r}]\nroundsd xmm0, qword ptr [{b}], 4\nmovsd qword ptr [{r}], xmm0");
sse2!(rint_s, f32, "movss xmm0, dword ptr [{r}]\nroundss xmm0, dword ptr [{b}], 4\nmovss dword ptr [{r}], xmm0");

macro_rules! fma {
    ($name:ident, $t:ty, $mov:literal, $ins:expr) => {
        pub fn $name(a: $t, b: $t, c: $t, mode: u8) -> ($t, u32) {
            let (mut s, mut m, mut r) = (0u32, mx(mode), a.to_bits());
            let (b, c) = (b.to_bits(), c.to_bits());
            unsafe {
                asm!("stmxcsr [{s}]", "ldmxcsr [{m}]", concat!($mov, " xmm0, [{r}]"), concat!($mov, " xmm1, [{b}]"), $ins,
                    concat!($mov, " [{r}], xmm0"), "stmxcsr [{m}]", "ldmxcsr [{s}]",
                    s = in(reg) &mut s, m = in(reg) &mut m, r = in(reg) &mut r, b = in(reg) &b, c = in(reg) &c,
                    out("xmm0") _, out("xmm1") _);
            }
            (<$t>::from_bits(r), m & 63)
        }
    };
}
fma!(fma_d, f64, "vmovsd", "vfmadd213sd xmm0, xmm1, qword ptr [{c}]");
fma!(fma_s, f32, "vmovss", "vfmadd213ss xmm0, xmm1, dword ptr [{c}]");

macro_rules! cvt {
    ($name:ident, $a:ty, $r:ty, $code:expr) => {
        pub fn $name(a: $a, mode: u8) -> ($r, u32) {
            let (mut s, mut m) = (0u32, mx(mode));
            let mut r: $r = 0;
            unsafe {
                asm!("stmxcsr [{s}]", "ldmxcsr [{m}]", $code, "stmxcsr [{m}]", "ldmxcsr [{s}]",
                    s = in(reg) &mut s, m = in(reg) &mut m, a = in(reg) &a, r = in(reg) &mut r, out("xmm0") _, out("rax") _);
            }
            (r, m & 63)
        }
    };
}
cvt!(d_to_s, u64, u32, "cvtsd2ss xmm0, qword ptr [{a}]\nmovss dword ptr [{r}], xmm0");
cvt!(s_to_d, u32, u64, "cvtss2sd xmm0, dword ptr [{a}]\nmovsd qword ptr [{r}], xmm0");
cvt!(s_to_h, u32, u32, "vmovss xmm0, dword ptr [{a}]\nvcvtps2ph xmm0, xmm0, 4\nvmovss dword ptr [{r}], xmm0");
cvt!(h_to_s, u32, u32, "vmovss xmm0, dword ptr [{a}]\nvcvtph2ps xmm0, xmm0\nvmovss dword ptr [{r}], xmm0");
cvt!(d_to_i64, u64, u64, "cvtsd2si rax, qword ptr [{a}]\nmov qword ptr [{r}], rax");
cvt!(s_to_i64, u32, u64, "cvtss2si rax, dword ptr [{a}]\nmov qword ptr [{r}], rax");
cvt!(d_to_i32, u64, u32, "cvtsd2si eax, qword ptr [{a}]\nmov dword ptr [{r}], eax");
cvt!(i64_to_d, u64, u64, "xorps xmm0, xmm0\ncvtsi2sd xmm0, qword ptr [{a}]\nmovsd qword ptr [{r}], xmm0");
cvt!(i64_to_s, u64, u32, "xorps xmm0, xmm0\ncvtsi2ss xmm0, qword ptr [{a}]\nmovss dword ptr [{r}], xmm0");

/// x87: `st` is a, `st(1)` is b.
macro_rules! x87 {
    ($name:ident, $a:literal, $b:literal, $code:expr, $st:literal) => {
        pub fn $name(a: u128, b: u128, mode: u8) -> (u128, u32) {
            let (mut s, c, mut r, sw) = (0u16, cw(mode), 0u128, 0u16);
            let mut sw = sw;
            unsafe {
                asm!("fnstcw word ptr [{s}]", "fnclex", "fldcw word ptr [{c}]",
                    concat!("fld ", $b, " ptr [{b}]"), concat!("fld ", $a, " ptr [{a}]"), $code,
                    $st, "fnstsw word ptr [{w}]", "fstp st(0)", "fnclex", "fldcw word ptr [{s}]",
                    s = in(reg) &mut s, c = in(reg) &c, a = in(reg) &a, b = in(reg) &b, r = in(reg) &mut r, w = in(reg) &mut sw, out("ax") _,
                    out("st(0)") _, out("st(1)") _, out("st(2)") _, out("st(3)") _, out("st(4)") _, out("st(5)") _, out("st(6)") _, out("st(7)") _);
            }
            (r, sw as u32 & 63)
        }
    };
}
x87!(add_x, "tbyte", "tbyte", "fadd st, st(1)", "fstp tbyte ptr [{r}]");
x87!(sub_x, "tbyte", "tbyte", "fsub st, st(1)", "fstp tbyte ptr [{r}]");
x87!(mul_x, "tbyte", "tbyte", "fmul st, st(1)", "fstp tbyte ptr [{r}]");
x87!(div_x, "tbyte", "tbyte", "fdiv st, st(1)", "fstp tbyte ptr [{r}]");
x87!(rem_x, "tbyte", "tbyte", "2: fprem\nfnstsw ax\ntest ah, 4\njnz 2b", "fstp tbyte ptr [{r}]");
x87!(rem1_x, "tbyte", "tbyte", "2: fprem1\nfnstsw ax\ntest ah, 4\njnz 2b", "fstp tbyte ptr [{r}]");
x87!(rint_x, "tbyte", "tbyte", "frndint", "fstp tbyte ptr [{r}]");
x87!(scale_x, "tbyte", "tbyte", "fscale", "fstp tbyte ptr [{r}]");
x87!(x_to_d, "tbyte", "tbyte", "", "fstp qword ptr [{r}]");
x87!(x_to_s, "tbyte", "tbyte", "", "fstp dword ptr [{r}]");
x87!(x_to_i64, "tbyte", "tbyte", "", "fistp qword ptr [{r}]");
x87!(x_to_i32, "tbyte", "tbyte", "", "fistp dword ptr [{r}]");
x87!(x_to_i16, "tbyte", "tbyte", "", "fistp word ptr [{r}]");
x87!(d_to_x, "qword", "qword", "", "fstp tbyte ptr [{r}]");
x87!(s_to_x, "dword", "dword", "", "fstp tbyte ptr [{r}]");
x87!(extract_sig_x, "tbyte", "tbyte", "fxtract", "fstp tbyte ptr [{r}]\nfstp st(0)");
x87!(extract_exp_x, "tbyte", "tbyte", "fxtract\nfstp st(0)", "fistp dword ptr [{r}]");
// remainders of narrower formats are exact in the wide one
x87!(rem_d, "qword", "qword", "2: fprem\nfnstsw ax\ntest ah, 4\njnz 2b", "fstp qword ptr [{r}]");
x87!(rem1_d, "qword", "qword", "2: fprem1\nfnstsw ax\ntest ah, 4\njnz 2b", "fstp qword ptr [{r}]");
x87!(rem_s, "dword", "dword", "2: fprem\nfnstsw ax\ntest ah, 4\njnz 2b", "fstp dword ptr [{r}]");
x87!(rem1_s, "dword", "dword", "2: fprem1\nfnstsw ax\ntest ah, 4\njnz 2b", "fstp dword ptr [{r}]");

pub fn i64_to_x(a: i64, mode: u8) -> (u128, u32) {
    let (mut s, c, mut r) = (0u16, cw(mode), 0u128);
    unsafe {
        asm!("fnstcw word ptr [{s}]", "fldcw word ptr [{c}]", "fild qword ptr [{a}]", "fstp tbyte ptr [{r}]", "fldcw word ptr [{s}]",
            s = in(reg) &mut s, c = in(reg) &c, a = in(reg) &a, r = in(reg) &mut r,
            out("st(0)") _, out("st(1)") _, out("st(2)") _, out("st(3)") _, out("st(4)") _, out("st(5)") _, out("st(6)") _, out("st(7)") _);
    }
    (r, 0)
}
/// Less, equal, greater, unordered (0..3) of two 80-bit values.
pub fn cmp_x(a: u128, b: u128) -> u8 {
    let (lt, eq, un): (u8, u8, u8);
    unsafe {
        asm!("fld tbyte ptr [{b}]", "fld tbyte ptr [{a}]", "fucomip st, st(1)", "fstp st(0)", "setb {l}", "sete {e}", "setp {u}", "fnclex",
            a = in(reg) &a, b = in(reg) &b, l = out(reg_byte) lt, e = out(reg_byte) eq, u = out(reg_byte) un,
            out("st(0)") _, out("st(1)") _, out("st(2)") _, out("st(3)") _, out("st(4)") _, out("st(5)") _, out("st(6)") _, out("st(7)") _);
    }
    if un != 0 { 3 } else if eq != 0 { 1 } else if lt != 0 { 0 } else { 2 }
}
pub fn has_fma() -> bool {
    is_x86_feature_detected!("fma")
}
pub fn has_f16c() -> bool {
    is_x86_feature_detected!("f16c")
}
