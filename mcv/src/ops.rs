//! C19: every operation of SIMD128, SIMD256 and Scalable.
use crate::op::*;
use vsimd::vector::{V128, V256};
use vsimd::{Scalable, SIMD256};
use Kind::*;

macro_rules! op {
    ($v:ident, $name:expr, $kind:expr, $w:expr, $min:expr, |$s:ident, $a:ident, $b:ident, $c:ident, $o:ident| $run:expr, |$sa:ident, $sb:ident, $sc:ident, $so:ident| $spec:expr) => {{
        struct X;
        impl Op for X {
            #[inline(always)]
            #[allow(unused_variables)]
            fn run<S: SIMD256>($s: S, $a: &B, $b: &B, $c: &B, $o: &mut B) {
                $run;
            }
            #[allow(unused_variables)]
            fn spec($sa: &B, $sb: &B, $sc: &B, $so: &mut B) {
                $spec;
            }
        }
        $v.push(d::<X>($name, $kind, $w, $min));
    }};
}
pub(crate) use op;

/// lane-wise binary, 128 and 256 bits
macro_rules! bin {
    ($v:ident, $kind:expr, $t:ty, $r:ty, $min:expr, $n1:ident, $n2:ident, |$x:ident, $y:ident| $e:expr) => {
        op!($v, stringify!($n1), $kind, 16, $min, |s, a, b, c, o| o1(o, s.$n1(v1(a), v1(b))), |a, b, c, o| {
            for i in 0..16 / core::mem::size_of::<$t>() {
                let ($x, $y): ($t, $t) = (g(a, i), g(b, i));
                let r: $r = $e;
                self::s::<$r>(o, i, r);
            }
        });
        op!($v, stringify!($n2), $kind, 32, $min, |s, a, b, c, o| o2(o, s.$n2(v2(a), v2(b))), |a, b, c, o| {
            for i in 0..32 / core::mem::size_of::<$t>() {
                let ($x, $y): ($t, $t) = (g(a, i), g(b, i));
                let r: $r = $e;
                self::s::<$r>(o, i, r);
            }
        });
    };
}
/// the same through the width-generic trait
macro_rules! scal {
    ($v:ident, $kind:expr, $t:ty, $r:ty, $min:expr, $n:ident, |$x:ident, $y:ident| $e:expr) => {
        op!($v, concat!("Scalable<V128>::", stringify!($n)), $kind, 16, $min, |s, a, b, c, o| o1(o, <S as Scalable<V128>>::$n(s, v1(a), v1(b))), |a, b, c, o| {
            for i in 0..16 / core::mem::size_of::<$t>() {
                let ($x, $y): ($t, $t) = (g(a, i), g(b, i));
                let r: $r = $e;
                self::s::<$r>(o, i, r);
            }
        });
        op!($v, concat!("Scalable<V256>::", stringify!($n)), $kind, 32, $min, |s, a, b, c, o| o2(o, <S as Scalable<V256>>::$n(s, v2(a), v2(b))), |a, b, c, o| {
            for i in 0..32 / core::mem::size_of::<$t>() {
                let ($x, $y): ($t, $t) = (g(a, i), g(b, i));
                let r: $r = $e;
                self::s::<$r>(o, i, r);
            }
        });
    };
}
macro_rules! splat {
    ($v:ident, $kind:expr, $t:ty, $n1:ident, $n2:ident) => {
        op!($v, stringify!($n1), $kind, core::mem::size_of::<$t>(), 1, |s, a, b, c, o| o1(o, s.$n1(g::<$t>(a, 0))), |a, b, c, o| {
            for i in 0..16 / core::mem::size_of::<$t>() {
                self::s::<$t>(o, i, g(a, 0));
            }
        });
        op!($v, stringify!($n2), $kind, core::mem::size_of::<$t>(), 1, |s, a, b, c, o| o2(o, s.$n2(g::<$t>(a, 0))), |a, b, c, o| {
            for i in 0..32 / core::mem::size_of::<$t>() {
                self::s::<$t>(o, i, g(a, 0));
            }
        });
    };
    ($v:ident, $kind:expr, $t:ty, $n:ident) => {
        op!($v, concat!("Scalable<V128>::", stringify!($n)), $kind, core::mem::size_of::<$t>(), 1, |s, a, b, c, o| o1(o, <S as Scalable<V128>>::$n(s, g::<$t>(a, 0))), |a, b, c, o| {
            for i in 0..16 / core::mem::size_of::<$t>() {
                self::s::<$t>(o, i, g(a, 0));
            }
        });
        op!($v, concat!("Scalable<V256>::", stringify!($n)), $kind, core::mem::size_of::<$t>(), 1, |s, a, b, c, o| o2(o, <S as Scalable<V256>>::$n(s, g::<$t>(a, 0))), |a, b, c, o| {
            for i in 0..32 / core::mem::size_of::<$t>() {
                self::s::<$t>(o, i, g(a, 0));
            }
        });
    };
}
/// interleave lanes of `$t` per 128-bit half; `$hi`: 0 or 1
macro_rules! zip {
    ($v:ident, $t:ty, $n1:ident, $n2:ident, $hi:expr) => {
        op!($v, stringify!($n1), Mv2, 16, 1, |s, a, b, c, o| o1(o, s.$n1(v1(a), v1(b))), |a, b, c, o| {
            let n = 16 / core::mem::size_of::<$t>();
            for k in 0..n / 2 {
                self::s::<$t>(o, 2 * k, g(a, $hi * n / 2 + k));
                self::s::<$t>(o, 2 * k + 1, g(b, $hi * n / 2 + k));
            }
        });
        op!($v, stringify!($n2), Mv2, 32, 1, |s, a, b, c, o| o2(o, s.$n2(v2(a), v2(b))), |a, b, c, o| {
            let n = 16 / core::mem::size_of::<$t>();
            for h in 0..2 {
                for k in 0..n / 2 {
                    self::s::<$t>(o, h * n + 2 * k, g(a, h * n + $hi * n / 2 + k));
                    self::s::<$t>(o, h * n + 2 * k + 1, g(b, h * n + $hi * n / 2 + k));
                }
            }
        });
    };
}
const X86: bool = cfg!(any(target_arch = "x86", target_arch = "x86_64"));
fn swz(a: &B, b: &B, o: &mut B, halves: usize) {
    for h in 0..halves {
        for i in 0..16 {
            let k = b.0[16 * h + i];
            // indexes 16..128: the low bits count on x86, they are out of range elsewhere
            let out = k >= 0x80 || !X86 && k >= 16;
            o.0[16 * h + i] = if out { 0 } else { a.0[16 * h + (k & 15) as usize] };
        }
    }
}
fn rev(a: &B, o: &mut B, unit: usize, n: usize) {
    for i in 0..n {
        o.0[i] = a.0[i / unit * unit + unit - 1 - i % unit];
    }
}
fn bits(a: &B, n: usize) -> u32 {
    (0..n).fold(0, |m, i| m | ((a.0[i] >> 7) as u32) << i)
}
fn flag(o: &mut B, x: bool) {
    o.0[0] = x as u8;
}

struct Shl16<const I: i32, const W: usize, const K: usize>;
struct Shr16<const I: i32, const W: usize, const K: usize>;
struct Shl32<const I: i32, const W: usize, const K: usize>;
struct Shr32<const I: i32, const W: usize, const K: usize>;
macro_rules! shift {
    ($n:ident, $t:ty, $f1:ident, $f2:ident, $($fx:ident)?, $op:tt) => {
        impl<const I: i32, const W: usize, const K: usize> Op for $n<I, W, K> {
            #[inline(always)]
            fn run<S: SIMD256>(s: S, a: &B, _b: &B, _c: &B, o: &mut B) {
                if K == 0 {
                    if W == 16 {
                        o1(o, s.$f1::<I>(v1(a)))
                    } else {
                        o2(o, s.$f2::<I>(v2(a)))
                    }
                } else {
                    $(
                    if W == 16 {
                        o1(o, <S as Scalable<V128>>::$fx::<I>(s, v1(a)))
                    } else {
                        o2(o, <S as Scalable<V256>>::$fx::<I>(s, v2(a)))
                    }
                    )?
                }
            }
            fn spec(a: &B, _b: &B, _c: &B, o: &mut B) {
                for i in 0..W / core::mem::size_of::<$t>() {
                    s::<$t>(o, i, g::<$t>(a, i) $op I);
                }
            }
        }
    };
}
shift!(Shl16, u16, u16x8_shl, u16x16_shl, u16xn_shl, <<);
shift!(Shr16, u16, u16x8_shr, u16x16_shr, u16xn_shr, >>);
shift!(Shl32, u32, u32x4_shl, u32x8_shl, , <<);
shift!(Shr32, u32, u32x4_shr, u32x8_shr, u32xn_shr, >>);
macro_rules! shifts {
    ($v:ident, $($i:literal)*) => { $( {
        // a right shift by 0 is not offered on NEON (rejected at compile time)
        const J: i32 = if cfg!(target_arch = "aarch64") && $i == 0 { 1 } else { $i };
        const H: i32 = if J & 15 == 0 { J >> 4 } else { J & 15 };
        if $i < 16 {
            const I: i32 = $i & 15;
            $v.push(d::<Shl16<I, 16, 0>>(concat!("u16x8_shl::<", $i, ">"), Un16, 16, 1));
            $v.push(d::<Shl16<I, 32, 0>>(concat!("u16x16_shl::<", $i, ">"), Un16, 32, 1));
            $v.push(d::<Shl16<I, 16, 1>>(concat!("Scalable<V128>::u16xn_shl::<", $i, ">"), Un16, 16, 1));
            $v.push(d::<Shl16<I, 32, 1>>(concat!("Scalable<V256>::u16xn_shl::<", $i, ">"), Un16, 32, 1));
            $v.push(d::<Shr16<H, 16, 0>>(concat!("u16x8_shr::<", $i, ">"), Un16, 16, 1));
            $v.push(d::<Shr16<H, 32, 0>>(concat!("u16x16_shr::<", $i, ">"), Un16, 32, 1));
            $v.push(d::<Shr16<H, 16, 1>>(concat!("Scalable<V128>::u16xn_shr::<", $i, ">"), Un16, 16, 1));
            $v.push(d::<Shr16<H, 32, 1>>(concat!("Scalable<V256>::u16xn_shr::<", $i, ">"), Un16, 32, 1));
        }
        $v.push(d::<Shl32<$i, 16, 0>>(concat!("u32x4_shl::<", $i, ">"), Un32, 16, 1));
        $v.push(d::<Shl32<$i, 32, 0>>(concat!("u32x8_shl::<", $i, ">"), Un32, 32, 1));
        $v.push(d::<Shr32<J, 16, 0>>(concat!("u32x4_shr::<", $i, ">"), Un32, 16, 1));
        $v.push(d::<Shr32<J, 32, 0>>(concat!("u32x8_shr::<", $i, ">"), Un32, 32, 1));
        $v.push(d::<Shr32<J, 16, 1>>(concat!("Scalable<V128>::u32xn_shr::<", $i, ">"), Un32, 16, 1));
        $v.push(d::<Shr32<J, 32, 1>>(concat!("Scalable<V256>::u32xn_shr::<", $i, ">"), Un32, 32, 1));
    } )* };
}

struct Blend16<const I: i32>;
impl<const I: i32> Op for Blend16<I> {
    #[inline(always)]
    fn run<S: SIMD256>(s: S, a: &B, b: &B, _c: &B, o: &mut B) {
        o1(o, s.u16x8_blend::<I>(v1(a), v1(b)))
    }
    fn spec(a: &B, b: &B, _c: &B, o: &mut B) {
        for i in 0..8 {
            s::<u16>(o, i, if I >> i & 1 == 1 { g(b, i) } else { g(a, i) });
        }
    }
}
struct Blend32<const I: i32>;
impl<const I: i32> Op for Blend32<I> {
    #[inline(always)]
    fn run<S: SIMD256>(s: S, a: &B, b: &B, _c: &B, o: &mut B) {
        o2(o, s.u32x8_blend::<I>(v2(a), v2(b)))
    }
    fn spec(a: &B, b: &B, _c: &B, o: &mut B) {
        for i in 0..8 {
            s::<u32>(o, i, if I >> i & 1 == 1 { g(b, i) } else { g(a, i) });
        }
    }
}
struct Perm64<const I: i32>;
impl<const I: i32> Op for Perm64<I> {
    #[inline(always)]
    fn run<S: SIMD256>(s: S, a: &B, _b: &B, _c: &B, o: &mut B) {
        o2(o, s.u64x4_permute::<I>(v2(a)))
    }
    fn spec(a: &B, _b: &B, _c: &B, o: &mut B) {
        for i in 0..4 {
            s::<u64>(o, i, g(a, (I >> (2 * i) & 3) as usize));
        }
    }
}
macro_rules! imm16 {
    ($v:ident, $h:expr, $($l:literal)*) => { $(
        $v.push(d::<Blend16<{ $h * 16 + $l }>>(&format!("u16x8_blend::<{}>", $h * 16 + $l), Mv2, 16, 3));
        $v.push(d::<Blend32<{ $h * 16 + $l }>>(&format!("u32x8_blend::<{}>", $h * 16 + $l), Mv2, 32, 4));
        $v.push(d::<Perm64<{ $h * 16 + $l }>>(&format!("u64x4_permute::<{}>", $h * 16 + $l), Mv1, 32, 4));
    )* };
}
macro_rules! imms {
    ($v:ident, $($h:literal)*) => { $( imm16!($v, $h, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15); )* };
}

pub fn list() -> Vec<D> {
    let mut v: Vec<D> = vec![];
    // bitwise
    bin!(v, Bin8, u8, u8, 1, v128_and, v256_and, |x, y| x & y);
    bin!(v, Bin8, u8, u8, 1, v128_or, v256_or, |x, y| x | y);
    bin!(v, Bin8, u8, u8, 1, v128_xor, v256_xor, |x, y| x ^ y);
    bin!(v, Bin8, u8, u8, 1, v128_andnot, v256_andnot, |x, y| x & !y);
    scal!(v, Bin8, u8, u8, 1, and, |x, y| x & y);
    scal!(v, Bin8, u8, u8, 1, or, |x, y| x | y);
    scal!(v, Bin8, u8, u8, 1, xor, |x, y| x ^ y);
    scal!(v, Bin8, u8, u8, 1, andnot, |x, y| x & !y);
    op!(v, "v128_not", Un8, 16, 1, |s, a, b, c, o| o1(o, s.v128_not(v1(a))), |a, b, c, o| for i in 0..16 {
        o.0[i] = !a.0[i];
    });
    op!(v, "v256_not", Un8, 32, 1, |s, a, b, c, o| o2(o, s.v256_not(v2(a))), |a, b, c, o| for i in 0..32 {
        o.0[i] = !a.0[i];
    });
    op!(v, "v128_create_zero", Un8, 16, 1, |s, a, b, c, o| o1(o, s.v128_create_zero()), |a, b, c, o| for i in 0..16 {
        o.0[i] = 0;
    });
    op!(v, "v256_create_zero", Un8, 32, 1, |s, a, b, c, o| o2(o, s.v256_create_zero()), |a, b, c, o| for i in 0..32 {
        o.0[i] = 0;
    });
    for w in [16, 32] {
        let _ = w;
    }
    op!(v, "v128_bsl", Tri8, 16, 1, |s, a, b, c, o| o1(o, s.v128_bsl(v1(a), v1(b), v1(c))), |a, b, c, o| for i in 0..16 {
        o.0[i] = a.0[i] & b.0[i] | !a.0[i] & c.0[i];
    });
    op!(v, "v256_bsl", Tri8, 32, 1, |s, a, b, c, o| o2(o, s.v256_bsl(v2(a), v2(b), v2(c))), |a, b, c, o| for i in 0..32 {
        o.0[i] = a.0[i] & b.0[i] | !a.0[i] & c.0[i];
    });
    op!(v, "u8x16_blendv", Tri8, 16, 3, |s, a, b, c, o| o1(o, s.u8x16_blendv(v1(a), v1(b), v1(c))), |a, b, c, o| for i in 0..16 {
        o.0[i] = if c.0[i] >= 0x80 { b.0[i] } else { a.0[i] };
    });
    op!(v, "u8x32_blendv", Tri8, 32, 3, |s, a, b, c, o| o2(o, s.u8x32_blendv(v2(a), v2(b), v2(c))), |a, b, c, o| for i in 0..32 {
        o.0[i] = if c.0[i] >= 0x80 { b.0[i] } else { a.0[i] };
    });
    // splats
    splat!(v, S8, u8, u8x16_splat, u8x32_splat);
    splat!(v, S16, u16, u16x8_splat, u16x16_splat);
    splat!(v, S32, u32, u32x4_splat, u32x8_splat);
    splat!(v, S64, u64, u64x2_splat, u64x4_splat);
    splat!(v, S8, i8, i8x16_splat, i8x32_splat);
    splat!(v, S16, i16, i16x8_splat, i16x16_splat);
    splat!(v, S32, i32, i32x4_splat, i32x8_splat);
    splat!(v, S64, i64, i64x2_splat, i64x4_splat);
    splat!(v, S8, u8, u8xn_splat);
    splat!(v, S8, i8, i8xn_splat);
    splat!(v, S32, u32, u32xn_splat);
    // arithmetic
    bin!(v, Bin8, u8, u8, 1, u8x16_add, u8x32_add, |x, y| x.wrapping_add(y));
    bin!(v, Bin16, u16, u16, 1, u16x8_add, u16x16_add, |x, y| x.wrapping_add(y));
    bin!(v, Bin32, u32, u32, 1, u32x4_add, u32x8_add, |x, y| x.wrapping_add(y));
    bin!(v, Bin64, u64, u64, 1, u64x2_add, u64x4_add, |x, y| x.wrapping_add(y));
    bin!(v, Bin8, u8, u8, 1, u8x16_sub, u8x32_sub, |x, y| x.wrapping_sub(y));
    bin!(v, Bin16, u16, u16, 1, u16x8_sub, u16x16_sub, |x, y| x.wrapping_sub(y));
    bin!(v, Bin32, u32, u32, 1, u32x4_sub, u32x8_sub, |x, y| x.wrapping_sub(y));
    bin!(v, Bin64, u64, u64, 1, u64x2_sub, u64x4_sub, |x, y| x.wrapping_sub(y));
    bin!(v, Bin8, u8, u8, 1, u8x16_sub_sat, u8x32_sub_sat, |x, y| x.saturating_sub(y));
    bin!(v, Bin16, u16, u16, 1, u16x8_sub_sat, u16x16_sub_sat, |x, y| x.saturating_sub(y));
    bin!(v, Bin8, i8, i8, 1, i8x16_sub_sat, i8x32_sub_sat, |x, y| x.saturating_sub(y));
    bin!(v, Bin16, i16, i16, 1, i16x8_sub_sat, i16x16_sub_sat, |x, y| x.saturating_sub(y));
    bin!(v, Bin8, i8, i8, 1, i8x16_add_sat, i8x32_add_sat, |x, y| x.saturating_add(y));
    bin!(v, Bin8, u8, u8, 1, u8x16_add_sat, u8x32_add_sat, |x, y| x.saturating_add(y));
    bin!(v, Bin16, i16, i16, 1, i16x8_mul_lo, i16x16_mul_lo, |x, y| x.wrapping_mul(y));
    bin!(v, Bin32, i32, i32, 3, i32x4_mul_lo, i32x8_mul_lo, |x, y| x.wrapping_mul(y));
    bin!(v, Bin16, u16, u16, 1, u16x8_mul_hi, u16x16_mul_hi, |x, y| (x as u32 * y as u32 >> 16) as u16);
    bin!(v, Bin16, i16, i16, 1, i16x8_mul_hi, i16x16_mul_hi, |x, y| (x as i32 * y as i32 >> 16) as i16);
    bin!(v, Bin8, u8, u8, 1, u8x16_avgr, u8x32_avgr, |x, y| ((x as u16 + y as u16 + 1) / 2) as u8);
    scal!(v, Bin8, u8, u8, 1, u8xn_add, |x, y| x.wrapping_add(y));
    scal!(v, Bin8, u8, u8, 1, u8xn_sub, |x, y| x.wrapping_sub(y));
    scal!(v, Bin32, u32, u32, 1, u32xn_sub, |x, y| x.wrapping_sub(y));
    scal!(v, Bin8, u8, u8, 1, u8xn_add_sat, |x, y| x.saturating_add(y));
    scal!(v, Bin8, i8, i8, 1, i8xn_add_sat, |x, y| x.saturating_add(y));
    scal!(v, Bin8, u8, u8, 1, u8xn_sub_sat, |x, y| x.saturating_sub(y));
    scal!(v, Bin8, u8, u8, 1, u8xn_avgr, |x, y| ((x as u16 + y as u16 + 1) / 2) as u8);
    // pairs of lanes: lane = two neighbours packed
    bin!(v, Bin32, [i16; 2], i32, 1, i16x8_madd, i16x16_madd, |x, y| (x[0] as i32 * y[0] as i32).wrapping_add(x[1] as i32 * y[1] as i32));
    bin!(v, Bin16, [u8; 2], i16, 2, i16x8_maddubs, i16x16_maddubs, |x, y| (x[0] as i32 * y[0] as i8 as i32 + x[1] as i32 * y[1] as i8 as i32).clamp(-32768, 32767) as i16);
    // comparisons
    bin!(v, Bin8, u8, u8, 1, u8x16_eq, u8x32_eq, |x, y| if x == y { !0 } else { 0 });
    bin!(v, Bin16, u16, u16, 1, u16x8_eq, u16x16_eq, |x, y| if x == y { !0 } else { 0 });
    bin!(v, Bin32, u32, u32, 1, u32x4_eq, u32x8_eq, |x, y| if x == y { !0 } else { 0 });
    bin!(v, Bin8, u8, u8, 1, u8x16_lt, u8x32_lt, |x, y| if x < y { !0 } else { 0 });
    bin!(v, Bin16, u16, u16, 1, u16x8_lt, u16x16_lt, |x, y| if x < y { !0 } else { 0 });
    bin!(v, Bin32, u32, u32, 1, u32x4_lt, u32x8_lt, |x, y| if x < y { !0 } else { 0 });
    bin!(v, Bin8, i8, i8, 1, i8x16_lt, i8x32_lt, |x, y| if x < y { !0 } else { 0 });
    bin!(v, Bin16, i16, i16, 1, i16x8_lt, i16x16_lt, |x, y| if x < y { !0 } else { 0 });
    bin!(v, Bin32, i32, i32, 1, i32x4_lt, i32x8_lt, |x, y| if x < y { !0 } else { 0 });
    scal!(v, Bin8, u8, u8, 1, u8xn_eq, |x, y| if x == y { !0 } else { 0 });
    scal!(v, Bin8, i8, i8, 1, i8xn_lt, |x, y| if x < y { !0 } else { 0 });
    scal!(v, Bin32, u32, u32, 1, u32xn_lt, |x, y| if x < y { !0 } else { 0 });
    bin!(v, Bin8, u8, u8, 1, u8x16_max, u8x32_max, |x, y| x.max(y));
    bin!(v, Bin16, u16, u16, 3, u16x8_max, u16x16_max, |x, y| x.max(y));
    bin!(v, Bin32, u32, u32, 3, u32x4_max, u32x8_max, |x, y| x.max(y));
    bin!(v, Bin8, i8, i8, 3, i8x16_max, i8x32_max, |x, y| x.max(y));
    bin!(v, Bin16, i16, i16, 1, i16x8_max, i16x16_max, |x, y| x.max(y));
    bin!(v, Bin32, i32, i32, 3, i32x4_max, i32x8_max, |x, y| x.max(y));
    bin!(v, Bin8, u8, u8, 1, u8x16_min, u8x32_min, |x, y| x.min(y));
    bin!(v, Bin16, u16, u16, 3, u16x8_min, u16x16_min, |x, y| x.min(y));
    bin!(v, Bin32, u32, u32, 3, u32x4_min, u32x8_min, |x, y| x.min(y));
    bin!(v, Bin8, i8, i8, 3, i8x16_min, i8x32_min, |x, y| x.min(y));
    bin!(v, Bin16, i16, i16, 1, i16x8_min, i16x16_min, |x, y| x.min(y));
    bin!(v, Bin32, i32, i32, 3, i32x4_min, i32x8_min, |x, y| x.min(y));
    scal!(v, Bin32, u32, u32, 3, u32xn_max, |x, y| x.max(y));
    // shifts, every amount
    shifts!(v, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    // shuffles
    op!(v, "u8x16_swizzle", Bin8, 16, 2, |s, a, b, c, o| o1(o, s.u8x16_swizzle(v1(a), v1(b))), |a, b, c, o| swz(a, b, o, 1));
    op!(v, "u8x16x2_swizzle", Bin8, 32, 2, |s, a, b, c, o| o2(o, s.u8x16x2_swizzle(v2(a), v2(b))), |a, b, c, o| swz(a, b, o, 2));
    op!(v, "Scalable<V128>::u8x16xn_swizzle", Bin8, 16, 2, |s, a, b, c, o| o1(o, <S as Scalable<V128>>::u8x16xn_swizzle(s, v1(a), v1(b))), |a, b, c, o| swz(a, b, o, 1));
    op!(v, "Scalable<V256>::u8x16xn_swizzle", Bin8, 32, 2, |s, a, b, c, o| o2(o, <S as Scalable<V256>>::u8x16xn_swizzle(s, v2(a), v2(b))), |a, b, c, o| swz(a, b, o, 2));
    zip!(v, u8, u8x16_zip_lo, u8x16x2_zip_lo, 0);
    zip!(v, u8, u8x16_zip_hi, u8x16x2_zip_hi, 1);
    zip!(v, u16, u16x8_zip_lo, u16x8x2_zip_lo, 0);
    zip!(v, u16, u16x8_zip_hi, u16x8x2_zip_hi, 1);
    zip!(v, u32, u32x4_zip_lo, u32x4x2_zip_lo, 0);
    zip!(v, u32, u32x4_zip_hi, u32x4x2_zip_hi, 1);
    zip!(v, u64, u64x2_zip_lo, u64x2x2_zip_lo, 0);
    zip!(v, u64, u64x2_zip_hi, u64x2x2_zip_hi, 1);
    op!(v, "v128x2_zip_lo", Mv2, 32, 1, |s, a, b, c, o| o2(o, s.v128x2_zip_lo(v2(a), v2(b))), |a, b, c, o| for i in 0..16 {
        o.0[i] = a.0[i];
        o.0[i + 16] = b.0[i];
    });
    op!(v, "v128x2_zip_hi", Mv2, 32, 1, |s, a, b, c, o| o2(o, s.v128x2_zip_hi(v2(a), v2(b))), |a, b, c, o| for i in 0..16 {
        o.0[i] = a.0[i + 16];
        o.0[i + 16] = b.0[i + 16];
    });
    op!(v, "u64x4_unzip_even", Mv2, 32, 1, |s, a, b, c, o| o2(o, s.u64x4_unzip_even(v2(a), v2(b))), |a, b, c, o| for i in 0..2 {
        self::s::<u64>(o, i, g(a, 2 * i));
        self::s::<u64>(o, i + 2, g(b, 2 * i));
    });
    op!(v, "u64x4_unzip_odd", Mv2, 32, 1, |s, a, b, c, o| o2(o, s.u64x4_unzip_odd(v2(a), v2(b))), |a, b, c, o| for i in 0..2 {
        self::s::<u64>(o, i, g(a, 2 * i + 1));
        self::s::<u64>(o, i + 2, g(b, 2 * i + 1));
    });
    op!(v, "u16x16_from_u8x16", Mv1, 16, 1, |s, a, b, c, o| o2(o, s.u16x16_from_u8x16(v1(a))), |a, b, c, o| for i in 0..16 {
        self::s::<u16>(o, i, a.0[i] as u16);
    });
    imms!(v, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    if !X86 {
        non_x86(&mut v);
    }
    // packs
    op!(v, "i16x8_packus", Bin16, 16, 1, |s, a, b, c, o| o1(o, s.i16x8_packus(v1(a), v1(b))), |a, b, c, o| for i in 0..8 {
        o.0[i] = g::<i16>(a, i).clamp(0, 255) as u8;
        o.0[i + 8] = g::<i16>(b, i).clamp(0, 255) as u8;
    });
    // byte swaps
    op!(v, "u16x8_bswap", Un16, 16, 2, |s, a, b, c, o| o1(o, s.u16x8_bswap(v1(a))), |a, b, c, o| rev(a, o, 2, 16));
    op!(v, "u32x4_bswap", Un32, 16, 2, |s, a, b, c, o| o1(o, s.u32x4_bswap(v1(a))), |a, b, c, o| rev(a, o, 4, 16));
    op!(v, "u64x2_bswap", Mv1, 16, 2, |s, a, b, c, o| o1(o, s.u64x2_bswap(v1(a))), |a, b, c, o| rev(a, o, 8, 16));
    op!(v, "u16x16_bswap", Un16, 32, 2, |s, a, b, c, o| o2(o, s.u16x16_bswap(v2(a))), |a, b, c, o| rev(a, o, 2, 32));
    op!(v, "u32x8_bswap", Un32, 32, 2, |s, a, b, c, o| o2(o, s.u32x8_bswap(v2(a))), |a, b, c, o| rev(a, o, 4, 32));
    op!(v, "u64x4_bswap", Mv1, 32, 2, |s, a, b, c, o| o2(o, s.u64x4_bswap(v2(a))), |a, b, c, o| rev(a, o, 8, 32));
    op!(v, "Scalable<V128>::u16xn_bswap", Un16, 16, 2, |s, a, b, c, o| o1(o, <S as Scalable<V128>>::u16xn_bswap(s, v1(a))), |a, b, c, o| rev(a, o, 2, 16));
    op!(v, "Scalable<V128>::u32xn_bswap", Un32, 16, 2, |s, a, b, c, o| o1(o, <S as Scalable<V128>>::u32xn_bswap(s, v1(a))), |a, b, c, o| rev(a, o, 4, 16));
    op!(v, "Scalable<V128>::u64xn_bswap", Mv1, 16, 2, |s, a, b, c, o| o1(o, <S as Scalable<V128>>::u64xn_bswap(s, v1(a))), |a, b, c, o| rev(a, o, 8, 16));
    op!(v, "Scalable<V256>::u16xn_bswap", Un16, 32, 2, |s, a, b, c, o| o2(o, <S as Scalable<V256>>::u16xn_bswap(s, v2(a))), |a, b, c, o| rev(a, o, 2, 32));
    op!(v, "Scalable<V256>::u32xn_bswap", Un32, 32, 2, |s, a, b, c, o| o2(o, <S as Scalable<V256>>::u32xn_bswap(s, v2(a))), |a, b, c, o| rev(a, o, 4, 32));
    op!(v, "Scalable<V256>::u64xn_bswap", Mv1, 32, 2, |s, a, b, c, o| o2(o, <S as Scalable<V256>>::u64xn_bswap(s, v2(a))), |a, b, c, o| rev(a, o, 8, 32));
    // tests over all lanes
    op!(v, "v128_all_zero", Red, 16, 3, |s, a, b, c, o| flag(o, s.v128_all_zero(v1(a))), |a, b, c, o| flag(o, a.0[..16].iter().all(|&x| x == 0)));
    op!(v, "v256_all_zero", Red, 32, 3, |s, a, b, c, o| flag(o, s.v256_all_zero(v2(a))), |a, b, c, o| flag(o, a.0.iter().all(|&x| x == 0)));
    op!(v, "Scalable<V128>::all_zero", Red, 16, 3, |s, a, b, c, o| flag(o, <S as Scalable<V128>>::all_zero(s, v1(a))), |a, b, c, o| flag(o, a.0[..16].iter().all(|&x| x == 0)));
    op!(v, "Scalable<V256>::all_zero", Red, 32, 3, |s, a, b, c, o| flag(o, <S as Scalable<V256>>::all_zero(s, v2(a))), |a, b, c, o| flag(o, a.0.iter().all(|&x| x == 0)));
    op!(v, "u8x16_any_zero", Red, 16, 1, |s, a, b, c, o| flag(o, s.u8x16_any_zero(v1(a))), |a, b, c, o| flag(o, a.0[..16].iter().any(|&x| x == 0)));
    op!(v, "u8x32_any_zero", Red, 32, 1, |s, a, b, c, o| flag(o, s.u8x32_any_zero(v2(a))), |a, b, c, o| flag(o, a.0.iter().any(|&x| x == 0)));
    op!(v, "u8x16_bitmask", Red, 16, 1, |s, a, b, c, o| self::s::<u16>(o, 0, s.u8x16_bitmask(v1(a))), |a, b, c, o| self::s::<u16>(o, 0, bits(a, 16) as u16));
    op!(v, "u8x32_bitmask", Red, 32, 1, |s, a, b, c, o| self::s::<u32>(o, 0, s.u8x32_bitmask(v2(a))), |a, b, c, o| self::s::<u32>(o, 0, bits(a, 32)));
    // the portable simulations of the same operations
    op!(v, "simulation::u8x16_bitmask", Red, 16, 1, |s, a, b, c, o| self::s::<u16>(o, 0, vsimd::simulation::u8x16_bitmask(v1(a))), |a, b, c, o| self::s::<u16>(o, 0, bits(a, 16) as u16));
    op!(v, "simulation::i16x8_packus", Bin16, 16, 1, |s, a, b, c, o| o1(o, vsimd::simulation::i16x8_packus(v1(a), v1(b))), |a, b, c, o| for i in 0..8 {
        o.0[i] = g::<i16>(a, i).clamp(0, 255) as u8;
        o.0[i + 8] = g::<i16>(b, i).clamp(0, 255) as u8;
    });
    // vector types
    op!(
        v,
        "V128::from_bytes, as_bytes",
        Mv1,
        16,
        1,
        |s, a, b, c, o| {
            let x = V128::from_bytes(a.0[..16].try_into().unwrap());
            o.0[..16].copy_from_slice(x.as_bytes());
            o.0[16..].copy_from_slice(V256::double_bytes(*x.as_bytes()).to_v128x2().1.as_bytes());
        },
        |a, b, c, o| for i in 0..32 {
            o.0[i] = a.0[i % 16];
        }
    );
    op!(v, "V128::x2", Mv1, 16, 1, |s, a, b, c, o| o2(o, v1(a).x2()), |a, b, c, o| for i in 0..32 {
        o.0[i] = a.0[i % 16];
    });
    op!(
        v,
        "V128::to_v64x2",
        Mv1,
        16,
        1,
        |s, a, b, c, o| {
            let (x, y) = v1(a).to_v64x2();
            o.0[..8].copy_from_slice(x.as_bytes());
            self::s::<u64>(o, 1, y.to_u64());
            o.0[16..24].copy_from_slice(vsimd::vector::V64::from_bytes(*y.as_bytes()).as_bytes());
        },
        |a, b, c, o| for i in 0..24 {
            o.0[i] = a.0[if i < 16 { i } else { i - 8 }];
        }
    );
    op!(
        v,
        "V256::to_v128x2, from_v128x2",
        Mv2,
        32,
        1,
        |s, a, b, c, o| {
            let ((a0, _), (_, b1)) = (v2(a).to_v128x2(), v2(b).to_v128x2());
            o2(o, V256::from_v128x2((b1, a0)));
        },
        |a, b, c, o| for i in 0..16 {
            o.0[i] = b.0[i + 16];
            o.0[i + 16] = a.0[i];
        }
    );
    op!(v, "V256::from_bytes, as_bytes", Mv1, 32, 1, |s, a, b, c, o| o.0 = *V256::from_bytes(a.0).as_bytes(), |a, b, c, o| o.0 = a.0);
    op!(
        v,
        "V512",
        Mv2,
        32,
        1,
        |s, a, b, c, o| {
            let x = vsimd::vector::V512::from_v256x2((v2(a), v2(b)));
            let y = vsimd::vector::V512::from_bytes(*x.as_bytes());
            let z = vsimd::vector::V512::double_bytes(*y.to_v256x2().0.as_bytes());
            o2(o, if z.to_v256x2().1.as_bytes() == v2(a).x2().to_v256x2().0.as_bytes() { y.to_v256x2().1 } else { v2(a) });
        },
        |a, b, c, o| o.0 = b.0
    );
    v
}

/// operations x86 does not offer
#[allow(unused_variables, unused_mut)]
fn non_x86(v: &mut Vec<D>) {
    op!(v, "u8x16_unzip_even", Mv2, 16, 1, |s, a, b, c, o| o1(o, s.u8x16_unzip_even(v1(a), v1(b))), |a, b, c, o| for i in 0..8 {
        o.0[i] = a.0[2 * i];
        o.0[i + 8] = b.0[2 * i];
    });
    op!(v, "u8x16_unzip_odd", Mv2, 16, 1, |s, a, b, c, o| o1(o, s.u8x16_unzip_odd(v1(a), v1(b))), |a, b, c, o| for i in 0..8 {
        o.0[i] = a.0[2 * i + 1];
        o.0[i + 8] = b.0[2 * i + 1];
    });
    op!(v, "u8x32_unzip_even", Mv2, 32, 1, |s, a, b, c, o| o2(o, s.u8x32_unzip_even(v2(a), v2(b))), |a, b, c, o| for i in 0..16 {
        o.0[i] = a.0[2 * i];
        o.0[i + 16] = b.0[2 * i];
    });
    op!(v, "u8x32_unzip_odd", Mv2, 32, 1, |s, a, b, c, o| o2(o, s.u8x32_unzip_odd(v2(a), v2(b))), |a, b, c, o| for i in 0..16 {
        o.0[i] = a.0[2 * i + 1];
        o.0[i + 16] = b.0[2 * i + 1];
    });
    #[cfg(target_arch = "aarch64")]
    {
        op!(
            v,
            "u8x8_unzip_even",
            Mv2,
            8,
            1,
            |s, a, b, c, o| {
                let r = s.u8x8_unzip_even(v1(a).to_v64x2().0, v1(b).to_v64x2().0);
                o.0[..8].copy_from_slice(r.as_bytes());
            },
            |a, b, c, o| for i in 0..4 {
                o.0[i] = a.0[2 * i];
                o.0[i + 4] = b.0[2 * i];
            }
        );
        op!(v, "u8x32_swizzle", Bin8, 32, 1, |s, a, b, c, o| o2(o, s.u8x32_swizzle(v2(a), v2(b))), |a, b, c, o| for i in 0..32 {
            o.0[i] = if b.0[i] < 32 { a.0[b.0[i] as usize] } else { 0 };
        });
        op!(v, "u8x16_reduce_max", Red, 16, 1, |s, a, b, c, o| o.0[0] = s.u8x16_reduce_max(v1(a)), |a, b, c, o| o.0[0] = *a.0[..16].iter().max().unwrap());
        op!(v, "u8x16_reduce_min", Red, 16, 1, |s, a, b, c, o| o.0[0] = s.u8x16_reduce_min(v1(a)), |a, b, c, o| o.0[0] = *a.0[..16].iter().min().unwrap());
        op!(v, "u8x32_reduce_max", Red, 32, 1, |s, a, b, c, o| o.0[0] = s.u8x32_reduce_max(v2(a)), |a, b, c, o| o.0[0] = *a.0.iter().max().unwrap());
        op!(v, "u8x32_reduce_min", Red, 32, 1, |s, a, b, c, o| o.0[0] = s.u8x32_reduce_min(v2(a)), |a, b, c, o| o.0[0] = *a.0.iter().min().unwrap());
    }
}
