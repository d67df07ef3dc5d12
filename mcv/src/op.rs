//! One vector operation = a real implementation (generic in the instruction set) and its scalar definition.
#[allow(unused_imports)]
use vsimd::isa::{InstructionSet, AVX2, NEON, SSE2, SSE41, SSSE3, WASM128};
use vsimd::vector::{V128, V256};
use vsimd::SIMD256;

#[repr(C, align(32))]
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct B(pub [u8; 32]);
pub const Z: B = B([0; 32]);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Un8,
    Un16,
    Un32,
    Bin8,
    Bin16,
    Bin32,
    Bin64,
    /// three byte operands
    Tri8,
    /// result depends on all lanes at once (tests, bit masks); any lane value allowed
    Red,
    /// the same, lanes are 0 or 0xff only
    RedMask,
    /// one scalar operand of 1, 2, 4, 8 bytes
    S8,
    S16,
    S32,
    S64,
    /// bytes move, one or two operands
    Mv1,
    Mv2,
    /// text: each byte and each pair of neighbours matters
    Txt,
    /// two operands of text
    Txt2,
}

pub type F = unsafe fn(&B, &B, &B, &mut B);
pub type P = fn(&B, &B, &B, &mut B);

pub trait Op {
    fn run<S: SIMD256>(s: S, a: &B, b: &B, c: &B, o: &mut B);
    fn spec(a: &B, b: &B, c: &B, o: &mut B);
}

#[derive(Clone)]
pub struct D {
    pub name: String,
    pub kind: Kind,
    /// operand bytes that matter
    pub w: usize,
    pub run: [Option<F>; NISA],
    pub spec: P,
    pub rounds: u32,
}

#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod arch {
    use super::*;
    pub const NISA: usize = 4;
    pub const ISAS: [&str; NISA] = ["sse2", "ssse3", "sse41", "avx2"];
    #[target_feature(enable = "sse2")]
    unsafe fn w1<O: Op>(a: &B, b: &B, c: &B, o: &mut B) {
        O::run(SSE2::new(), a, b, c, o)
    }
    #[target_feature(enable = "ssse3")]
    unsafe fn w2<O: Op>(a: &B, b: &B, c: &B, o: &mut B) {
        O::run(SSSE3::new(), a, b, c, o)
    }
    #[target_feature(enable = "sse4.1")]
    unsafe fn w3<O: Op>(a: &B, b: &B, c: &B, o: &mut B) {
        O::run(SSE41::new(), a, b, c, o)
    }
    #[target_feature(enable = "avx2")]
    unsafe fn w4<O: Op>(a: &B, b: &B, c: &B, o: &mut B) {
        O::run(AVX2::new(), a, b, c, o)
    }
    /// `min`: lowest instruction set that offers it (1 SSE2 .. 4 AVX2)
    pub fn d<O: Op>(name: &str, kind: Kind, w: usize, min: usize) -> D {
        let g = |k: usize, f: F| (k >= min).then_some(f);
        D { name: name.into(), kind, w, run: [g(1, w1::<O>), g(2, w2::<O>), g(3, w3::<O>), g(4, w4::<O>)], spec: O::spec, rounds: 1 }
    }
    /// Only one instruction set.
    pub fn only(mut x: D, k: usize) -> D {
        for i in 0..NISA {
            if i + 1 != k {
                x.run[i] = None;
            }
        }
        x
    }
}
#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
mod arch {
    use super::*;
    pub const NISA: usize = 1;
    #[cfg(target_arch = "aarch64")]
    pub const ISAS: [&str; NISA] = ["neon"];
    #[cfg(target_arch = "wasm32")]
    pub const ISAS: [&str; NISA] = ["simd128"];
    #[cfg(target_arch = "aarch64")]
    #[target_feature(enable = "neon")]
    unsafe fn w1<O: Op>(a: &B, b: &B, c: &B, o: &mut B) {
        O::run(NEON::new(), a, b, c, o)
    }
    #[cfg(target_arch = "wasm32")]
    #[target_feature(enable = "simd128")]
    unsafe fn w1<O: Op>(a: &B, b: &B, c: &B, o: &mut B) {
        O::run(WASM128::new(), a, b, c, o)
    }
    /// operations these instruction sets do not offer
    fn missing(name: &str) -> bool {
        if name.starts_with("simulation::") {
            return false;
        }
        ["mul_hi", "maddubs", "madd", "blend", "u64x4_permute", "packus", "hex::sse2"].iter().any(|k| name.contains(k)) || cfg!(target_arch = "aarch64") && name.contains("_bitmask")
    }
    pub fn d<O: Op>(name: &str, kind: Kind, w: usize, _min: usize) -> D {
        D { name: name.into(), kind, w, run: [(!missing(name)).then_some(w1::<O> as F)], spec: O::spec, rounds: 1 }
    }
    pub fn only(x: D, _k: usize) -> D {
        x
    }
}
pub use arch::{d, only, ISAS, NISA};

#[inline(always)]
pub fn v1(a: &B) -> V128 {
    unsafe { (a as *const B).cast::<V128>().read() }
}
#[inline(always)]
pub fn v2(a: &B) -> V256 {
    unsafe { (a as *const B).cast::<V256>().read() }
}
#[inline(always)]
pub fn o1(o: &mut B, x: V128) {
    unsafe { (o as *mut B).cast::<V128>().write(x) }
}
#[inline(always)]
pub fn o2(o: &mut B, x: V256) {
    unsafe { (o as *mut B).cast::<V256>().write(x) }
}
#[inline(always)]
pub fn g<T: Copy>(a: &B, i: usize) -> T {
    debug_assert!((i + 1) * core::mem::size_of::<T>() <= 32);
    unsafe { (a as *const B).cast::<T>().add(i).read() }
}
#[inline(always)]
pub fn s<T: Copy>(o: &mut B, i: usize, x: T) {
    debug_assert!((i + 1) * core::mem::size_of::<T>() <= 32);
    unsafe { (o as *mut B).cast::<T>().add(i).write(x) }
}
