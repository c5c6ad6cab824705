//! The C library as an oracle: glibc's libm and libc and GCC's soft-float routines, called under
//! a chosen rounding mode with the exception flags they raised. Nothing is compiled: functions are
//! looked up in the libraries installed with the C compiler.
#![cfg(target_arch = "x86_64")]
use std::arch::asm;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

extern "C" {
    fn dlopen(name: *const u8, flags: i32) -> usize;
    fn dlsym(lib: usize, name: *const u8) -> usize;
}

static KNOWN: OnceLock<Mutex<HashMap<String, usize>>> = OnceLock::new();
/// Address of a function of the C library or of libgcc; `None` where this machine has none.
pub fn find(name: &str) -> Option<usize> {
    let mut known = KNOWN.get_or_init(Default::default).lock().unwrap();
    let p = *known.entry(name.to_string()).or_insert_with(|| {
        let z = format!("{}\0", name);
        for lib in ["libgcc_s.so.1\0", "libm.so.6\0", "libc.so.6\0"] {
            unsafe {
                let h = dlopen(lib.as_ptr(), 2);
                let p = if h != 0 { dlsym(h, z.as_ptr()) } else { 0 };
                if p != 0 {
                    return p;
                }
            }
        }
        0
    });
    Some(p).filter(|&p| p != 0)
}

#[repr(C, align(16))]
struct Frame {
    x: [u128; 3],
    st: u128,
    i: [u64; 4],
    rax: u64,
    rdx: u64,
    f: usize,
    mx: u32,
    smx: u32,
    cw: u16,
    scw: u16,
    sw: u16,
}
pub struct Ret {
    /// xmm0, or st(0) of a function that returns `long double`.
    pub v: u128,
    pub int: u64,
    pub int2: u64,
    /// IE 1, DE 2, ZE 4, OE 8, UE 16, PE 32, of both units.
    pub flags: u32,
}

macro_rules! call {
    ($fr:ident, $($ret:literal),*) => {
        asm!(
            "stmxcsr [r12 + 124]", "ldmxcsr [r12 + 120]",
            "fnstcw word ptr [r12 + 130]", "fnclex", "fldcw word ptr [r12 + 128]",
            "sub rsp, 48",
            "movdqa xmm0, [r12]", "movdqa xmm1, [r12 + 16]", "movdqa xmm2, [r12 + 32]",
            "movdqu [rsp], xmm0", "movdqu [rsp + 16], xmm1", "movdqu [rsp + 32], xmm2",
            "mov rdi, [r12 + 64]", "mov rsi, [r12 + 72]", "mov rdx, [r12 + 80]", "mov rcx, [r12 + 88]",
            "call [r12 + 112]",
            "add rsp, 48",
            $($ret,)*
            "mov [r12 + 96], rax", "mov [r12 + 104], rdx",
            "stmxcsr [r12 + 120]", "fnstsw word ptr [r12 + 132]",
            "fnclex", "fldcw word ptr [r12 + 130]", "ldmxcsr [r12 + 124]",
            in("r12") &mut $fr, clobber_abi("sysv64"))
    };
}
/// Arguments are passed in the vector registers, on the stack (where `long double`s are looked for)
/// and in the integer registers alike; `x` if the result is a `long double`.
pub fn call(f: usize, x: bool, a: &[u128], i: &[u64], mode: u8) -> Ret {
    let rc = [0u32, 2, 1, 3][mode as usize];
    let mut fr = Frame { x: [0; 3], st: 0, i: [0; 4], rax: 0, rdx: 0, f, mx: 0x1f80 | rc << 13, smx: 0, cw: 0x37f | (rc as u16) << 10, scw: 0, sw: 0 };
    fr.x[..a.len()].copy_from_slice(a);
    fr.i[..i.len()].copy_from_slice(i);
    unsafe {
        if x {
            call!(fr, "fstp tbyte ptr [r12 + 48]");
            fr.st &= (1 << 80) - 1;
        } else {
            call!(fr, "movdqa [r12 + 48], xmm0");
        }
    }
    Ret { v: fr.st, int: fr.rax, int2: fr.rdx, flags: (fr.mx & 63) | (fr.sw as u32 & 63) }
}
