//! C22: the shared helpers built on the vector operations.
use crate::op::*;
use crate::ops::op;
use vsimd::alsw::{self, AlswLut};
use vsimd::ascii;
use vsimd::bswap::BSwap;
use vsimd::hex;
use vsimd::isa::{InstructionSet, SSE2};
use vsimd::mask::*;
use vsimd::table::u8x16xn_lookup;
use vsimd::vector::{V128, V256};
use vsimd::{Scalable, SIMD256};
use Kind::*;

fn flag(o: &mut B, x: bool) {
    o.0[0] = x as u8;
}
/// value of a hex digit, from RFC 4648
fn digit(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
fn unhex_into(a: &[u8], o: &mut [u8]) -> bool {
    let mut ok = true;
    for i in 0..a.len() / 2 {
        match (digit(a[2 * i]), digit(a[2 * i + 1])) {
            (Some(h), Some(l)) => o[i] = h * 16 + l,
            _ => ok = false,
        }
    }
    if !ok {
        o[..a.len() / 2].fill(0);
    }
    ok
}
fn enhex(x: u8, upper: bool, lo: bool) -> u8 {
    let n = if lo { x & 15 } else { x >> 4 };
    let c = b"0123456789abcdef"[n as usize];
    if upper {
        c.to_ascii_uppercase()
    } else {
        c
    }
}

// character sets for the generic table classifier
macro_rules! alphabet {
    ($m:ident, |$c:ident| $val:expr, |$k:ident| $check:expr, |$j:ident| $dec:expr) => {
        pub mod $m {
            use vsimd::alsw::AlswLut;
            use vsimd::impl_alsw;
            use vsimd::vector::V128;
            pub struct T;
            impl T {
                const fn decode($c: u8) -> u8 {
                    $val
                }
                const fn check_hash($k: u8) -> u8 {
                    $check
                }
                const fn decode_hash($j: u8) -> u8 {
                    $dec
                }
                pub const fn value(c: u8) -> u8 {
                    Self::decode(c)
                }
                pub const CHECK: AlswLut<V128> = Self::check_lut();
                pub const DECODE: AlswLut<V128> = Self::decode_lut();
            }
            impl_alsw!(T);
        }
    };
}
alphabet!(
    std64,
    |c| match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62,
        b'/' => 63,
        _ => 0xff,
    },
    |i| match i {
        0 => 5,
        1..=9 => 2,
        0xA => 4,
        0xB => 6,
        0xC..=0xE => 8,
        _ => 6,
    },
    |i| match i {
        0xB => 7,
        0xF => 8,
        _ => 1,
    }
);
alphabet!(
    url64,
    |c| match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'-' => 62,
        b'_' => 63,
        _ => 0xff,
    },
    |i| match i {
        0 => 7,
        1..=9 => 2,
        0xA => 4,
        0xB | 0xC => 6,
        0xD => 8,
        _ => 6,
    },
    |i| match i {
        0xF => 5,
        _ => 1,
    }
);
alphabet!(
    hex16,
    |c| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0xff,
    },
    |i| match i {
        0..=6 => 1,
        7..=9 => 6,
        _ => 8,
    },
    |i| match i {
        0..=6 => 1,
        7..=9 => 6,
        _ => 8,
    }
);
alphabet!(
    std32,
    |c| match c {
        b'A'..=b'Z' => c - b'A',
        b'2'..=b'7' => c - b'2' + 26,
        _ => 0xff,
    },
    |i| match i {
        0 | 1 => 1,
        2..=7 => 6,
        8..=0xA => 1,
        _ => 7,
    },
    |i| match i {
        0 | 1 => 1,
        2..=7 => 6,
        8..=0xA => 1,
        _ => 7,
    }
);

macro_rules! un {
    ($v:ident, $name:expr, $f:expr, |$x:ident| $e:expr) => {
        op!($v, concat!($name, "<V128>"), Un8, 16, 1, |s, a, b, c, o| o1(o, $f(s, v1(a))), |a, b, c, o| for i in 0..16 {
            let $x = a.0[i];
            o.0[i] = $e;
        });
        op!($v, concat!($name, "<V256>"), Un8, 32, 1, |s, a, b, c, o| o2(o, $f(s, v2(a))), |a, b, c, o| for i in 0..32 {
            let $x = a.0[i];
            o.0[i] = $e;
        });
    };
}
macro_rules! red {
    ($v:ident, $kind:expr, $min:expr, $n:expr, $f1:expr, $f2:expr, $m:ident, |$x:ident| $e:expr) => {
        op!($v, concat!($n, "<V128>"), $kind, 16, $min, |s, a, b, c, o| flag(o, $f1(s, v1(a))), |a, b, c, o| flag(o, a.0[..16].iter().$m(|&$x| $e)));
        op!($v, concat!($n, "<V256>"), $kind, 32, $min, |s, a, b, c, o| flag(o, $f2(s, v2(a))), |a, b, c, o| flag(o, a.0.iter().$m(|&$x| $e)));
    };
}
macro_rules! classify {
    ($v:ident, $name:expr, $m:ident) => {
        op!($v, concat!("check_ascii_xn<V128> ", $name), Txt, 16, 2, |s, a, b, c, o| flag(o, alsw::check_ascii_xn(s, v1(a), $m::T::CHECK)), |a, b, c, o| flag(o, a.0[..16].iter().all(|&x| $m::T::value(x) != 0xff)));
        op!($v, concat!("check_ascii_xn<V256> ", $name), Txt, 32, 2, |s, a, b, c, o| flag(o, alsw::check_ascii_xn(s, v2(a), $m::T::CHECK.x2())), |a, b, c, o| flag(o, a.0.iter().all(|&x| $m::T::value(x) != 0xff)));
        // first component: high bit set exactly at the bytes outside the set; second: value of the others
        op!(
            $v,
            concat!("decode_ascii_xn<V128> ", $name),
            Txt,
            16,
            2,
            |s, a, b, c, o| {
                let (p, q) = alsw::decode_ascii_xn(s, v1(a), $m::T::CHECK, $m::T::DECODE);
                for i in 0..16 {
                    o.0[i] = if p.as_bytes()[i] >= 0x80 { 0xff } else { q.as_bytes()[i] };
                }
            },
            |a, b, c, o| for i in 0..16 {
                o.0[i] = $m::T::value(a.0[i]);
            }
        );
        op!(
            $v,
            concat!("decode_ascii_xn<V256> ", $name),
            Txt,
            32,
            2,
            |s, a, b, c, o| {
                let (p, q) = alsw::decode_ascii_xn(s, v2(a), $m::T::CHECK.x2(), $m::T::DECODE.x2());
                for i in 0..32 {
                    o.0[i] = if p.as_bytes()[i] >= 0x80 { 0xff } else { q.as_bytes()[i] };
                }
            },
            |a, b, c, o| for i in 0..32 {
                o.0[i] = $m::T::value(a.0[i]);
            }
        );
    };
}
const CS: [(bool, V256); 2] = [(false, hex::ENCODE_LOWER_LUT), (true, hex::ENCODE_UPPER_LUT)];
struct Enc16<const U: usize>;
impl<const U: usize> Op for Enc16<U> {
    #[inline(always)]
    fn run<S: SIMD256>(s: S, a: &B, _b: &B, _c: &B, o: &mut B) {
        o2(o, hex::encode_bytes16(s, v1(a), CS[U].1))
    }
    fn spec(a: &B, _b: &B, _c: &B, o: &mut B) {
        for i in 0..32 {
            o.0[i] = enhex(a.0[i / 2], CS[U].0, i % 2 == 1);
        }
    }
}
struct Enc32<const U: usize, const H: usize>;
impl<const U: usize, const H: usize> Op for Enc32<U, H> {
    #[inline(always)]
    fn run<S: SIMD256>(s: S, a: &B, _b: &B, _c: &B, o: &mut B) {
        let r = hex::encode_bytes32(s, v2(a), CS[U].1);
        o2(o, if H == 0 { r.0 } else { r.1 })
    }
    fn spec(a: &B, _b: &B, _c: &B, o: &mut B) {
        for i in 0..32 {
            o.0[i] = enhex(a.0[(i + 32 * H) / 2], CS[U].0, i % 2 == 1);
        }
    }
}

pub fn list() -> Vec<D> {
    let mut v: Vec<D> = vec![];
    un!(v, "to_ascii_lowercase", ascii::to_ascii_lowercase, |x| x.to_ascii_lowercase());
    un!(v, "to_ascii_uppercase", ascii::to_ascii_uppercase, |x| x.to_ascii_uppercase());
    red!(v, RedMask, 1, "mask8_all", mask8x16_all, mask8x32_all, all, |x| x == 0xff);
    red!(v, RedMask, 1, "mask8_any", mask8x16_any, mask8x32_any, any, |x| x == 0xff);
    red!(v, RedMask, 1, "Scalable::mask8xn_all", <S as Scalable<V128>>::mask8xn_all, <S as Scalable<V256>>::mask8xn_all, all, |x| x == 0xff);
    red!(v, RedMask, 1, "Scalable::mask8xn_any", <S as Scalable<V128>>::mask8xn_any, <S as Scalable<V256>>::mask8xn_any, any, |x| x == 0xff);
    red!(v, Red, 1, "u8_highbit_all", u8x16_highbit_all, u8x32_highbit_all, all, |x| x >= 0x80);
    red!(v, Red, 1, "u8_highbit_any", u8x16_highbit_any, u8x32_highbit_any, any, |x| x >= 0x80);
    red!(v, Red, 1, "Scalable::u8xn_highbit_all", <S as Scalable<V128>>::u8xn_highbit_all, <S as Scalable<V256>>::u8xn_highbit_all, all, |x| x >= 0x80);
    red!(v, Red, 1, "Scalable::u8xn_highbit_any", <S as Scalable<V128>>::u8xn_highbit_any, <S as Scalable<V256>>::u8xn_highbit_any, any, |x| x >= 0x80);
    red!(v, Txt, 1, "hex::check_xn", hex::check_xn, hex::check_xn, all, |x| digit(x).is_some());
    op!(v, "u8x16xn_lookup<V128>", Bin8, 16, 2, |s, a, b, c, o| o1(o, u8x16xn_lookup(s, v1(a), v1(b))), |a, b, c, o| for i in 0..16 {
        o.0[i] = if b.0[i] < 0x80 { a.0[(b.0[i] & 15) as usize] } else { 0 };
    });
    op!(v, "u8x16xn_lookup<V256>", Bin8, 32, 2, |s, a, b, c, o| o2(o, u8x16xn_lookup(s, v2(a), v2(b))), |a, b, c, o| for i in 0..32 {
        o.0[i] = if b.0[i] < 0x80 { a.0[i / 16 * 16 + (b.0[i] & 15) as usize] } else { 0 };
    });
    v.push(d::<Enc16<0>>("hex::encode_bytes16 lower", Un8, 16, 2));
    v.push(d::<Enc16<1>>("hex::encode_bytes16 upper", Un8, 16, 2));
    v.push(d::<Enc32<0, 0>>("hex::encode_bytes32 lower .0", Un8, 32, 2));
    v.push(d::<Enc32<1, 0>>("hex::encode_bytes32 upper .0", Un8, 32, 2));
    v.push(d::<Enc32<0, 1>>("hex::encode_bytes32 lower .1", Un8, 32, 2));
    v.push(d::<Enc32<1, 1>>("hex::encode_bytes32 upper .1", Un8, 32, 2));
    op!(
        v,
        "hex::decode_ascii16",
        Txt,
        16,
        2,
        |s, a, b, c, o| match hex::decode_ascii16(s, v1(a)) {
            Ok(x) => {
                o.0[0] = 1;
                o.0[1..9].copy_from_slice(x.as_bytes());
            }
            Err(()) => o.0[..9].fill(0),
        },
        |a, b, c, o| o.0[0] = unhex_into(&a.0[..16], &mut o.0[1..]) as u8
    );
    op!(
        v,
        "hex::decode_ascii32",
        Txt,
        32,
        2,
        |s, a, b, c, o| match hex::decode_ascii32(s, v2(a)) {
            Ok(x) => {
                o.0[0] = 1;
                o.0[1..17].copy_from_slice(x.as_bytes());
            }
            Err(()) => o.0[..17].fill(0),
        },
        |a, b, c, o| o.0[0] = unhex_into(&a.0, &mut o.0[1..]) as u8
    );
    op!(
        v,
        "hex::decode_ascii32x2 first",
        Txt,
        32,
        2,
        |s, a, b, c, o| match hex::decode_ascii32x2(s, (v2(a), V256::double_bytes(*b"0123456789abcdef"))) {
            Ok(x) => o.0[..30].copy_from_slice(&x.as_bytes()[..30]),
            Err(()) => o.0[..30].fill(0xee),
        },
        |a, b, c, o| {
            if unhex_into(&a.0, &mut o.0) {
                for i in 16..30 {
                    o.0[i] = [1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef][i % 8];
                }
            } else {
                o.0[..30].fill(0xee);
            }
        }
    );
    op!(
        v,
        "hex::decode_ascii32x2 second",
        Txt,
        32,
        2,
        |s, a, b, c, o| match hex::decode_ascii32x2(s, (V256::double_bytes(*b"fEdCbA9876543210"), v2(a))) {
            Ok(x) => o2(o, x),
            Err(()) => o.0.fill(0xee),
        },
        |a, b, c, o| {
            if unhex_into(&a.0, &mut o.0[16..]) {
                for i in 0..16 {
                    o.0[i] = [0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10][i % 8];
                }
            } else {
                o.0.fill(0xee);
            }
        }
    );
    op!(
        v,
        "hex::decode_ascii32x2 both",
        Txt2,
        32,
        2,
        |s, a, b, c, o| match hex::decode_ascii32x2(s, (v2(a), v2(b))) {
            Ok(x) => o2(o, x),
            Err(()) => o.0.fill(0xee),
        },
        |a, b, c, o| {
            let (x, y) = (unhex_into(&a.0, &mut o.0), unhex_into(&b.0, &mut o.0[16..]));
            if !(x && y) {
                o.0.fill(0xee);
            }
        }
    );
    {
        let mut w: Vec<D> = vec![];
        op!(
            w,
            "hex::sse2::decode_nibbles",
            Txt,
            16,
            1,
            |s, a, b, c, o| {
                let (p, q) = hex::sse2::decode_nibbles(unsafe { SSE2::new() }, v1(a));
                for i in 0..16 {
                    o.0[i] = if q.as_bytes()[i] >= 0x80 { 0xff } else { p.as_bytes()[i] };
                }
            },
            |a, b, c, o| for i in 0..16 {
                o.0[i] = digit(a.0[i]).unwrap_or(0xff);
            }
        );
        op!(
            w,
            "hex::sse2::merge_bits",
            Bin8,
            16,
            1,
            |s, a, b, c, o| {
                let s1 = unsafe { SSE2::new() };
                let x = hex::sse2::merge_bits(s1, vsimd::SIMD128::v128_and(s1, v1(a), V128::from_bytes([15; 16])));
                self::s::<u64>(o, 0, x.to_u64());
            },
            |a, b, c, o| for i in 0..8 {
                o.0[i] = a.0[2 * i] << 4 | a.0[2 * i + 1] & 15;
            }
        );
        op!(
            w,
            "hex::sse2::encode16 lower",
            Un8,
            16,
            1,
            |s, a, b, c, o| {
                let (p, q) = hex::sse2::encode16(unsafe { SSE2::new() }, v1(a), hex::sse2::LOWER_OFFSET);
                o.0[..16].copy_from_slice(p.as_bytes());
                o.0[16..].copy_from_slice(q.as_bytes());
            },
            |a, b, c, o| for i in 0..32 {
                o.0[i] = enhex(a.0[i / 2], false, i % 2 == 1);
            }
        );
        op!(
            w,
            "hex::sse2::encode16 upper",
            Un8,
            16,
            1,
            |s, a, b, c, o| {
                let (p, q) = hex::sse2::encode16(unsafe { SSE2::new() }, v1(a), hex::sse2::UPPER_OFFSET);
                o.0[..16].copy_from_slice(p.as_bytes());
                o.0[16..].copy_from_slice(q.as_bytes());
            },
            |a, b, c, o| for i in 0..32 {
                o.0[i] = enhex(a.0[i / 2], true, i % 2 == 1);
            }
        );
        op!(
            w,
            "hex::unhex",
            Un8,
            32,
            1,
            |s, a, b, c, o| for i in 0..32 {
                o.0[i] = hex::unhex(a.0[i]);
            },
            |a, b, c, o| for i in 0..32 {
                o.0[i] = digit(a.0[i]).unwrap_or(0xff);
            }
        );
        op!(
            w,
            "alsw::avgr",
            Bin8,
            32,
            1,
            |s, a, b, c, o| for i in 0..32 {
                o.0[i] = alsw::avgr(a.0[i], b.0[i]);
            },
            |a, b, c, o| for i in 0..32 {
                o.0[i] = (a.0[i] as f64 / 2.0 + b.0[i] as f64 / 2.0 + 0.5).floor() as u8;
            }
        );
        op!(
            w,
            "alsw::lookup",
            Bin8,
            32,
            1,
            |s, a, b, c, o| for i in 0..32 {
                o.0[i] = alsw::lookup(a.0[..16].try_into().unwrap(), b.0[i]);
            },
            |a, b, c, o| for i in 0..32 {
                o.0[i] = if b.0[i] & 0x80 == 0 { a.0[(b.0[i] % 16) as usize] } else { 0 };
            }
        );
        op!(
            w,
            "scalar swap_single",
            Mv1,
            14,
            1,
            |s, a, b, c, o| {
                self::s::<u16>(o, 0, <u16 as BSwap>::swap_single(g(a, 0)));
                self::s::<u32>(o, 1, <u32 as BSwap>::swap_single(g(a, 1)));
                self::s::<u64>(o, 1, <u64 as BSwap>::swap_single(g(a, 1)));
                o.0[2..4].fill(0);
            },
            |a, b, c, o| {
                o.0[0] = a.0[1];
                o.0[1] = a.0[0];
                o.0[2..4].fill(0);
                for i in 0..4 {
                    o.0[4 + i] = a.0[7 - i];
                }
                for i in 0..8 {
                    o.0[8 + i] = a.0[15 - i];
                }
            }
        );
        v.extend(w.into_iter().map(|x| only(x, 1)));
    }
    op!(v, "u16::swap_simd", Un16, 32, 2, |s, a, b, c, o| o2(o, <u16 as BSwap>::swap_simd(s, v2(a))), |a, b, c, o| for i in 0..32 {
        o.0[i] = a.0[i ^ 1];
    });
    op!(v, "u32::swap_simd", Un32, 32, 2, |s, a, b, c, o| o2(o, <u32 as BSwap>::swap_simd(s, v2(a))), |a, b, c, o| for i in 0..32 {
        o.0[i] = a.0[i ^ 3];
    });
    op!(v, "u64::swap_simd", Mv1, 32, 2, |s, a, b, c, o| o2(o, <u64 as BSwap>::swap_simd(s, v2(a))), |a, b, c, o| for i in 0..32 {
        o.0[i] = a.0[i ^ 7];
    });
    classify!(v, "base64", std64);
    classify!(v, "base64url", url64);
    classify!(v, "hex", hex16);
    classify!(v, "base32", std32);
    v
}

/// Tables a caller may hand to the classifier besides the ones above: none of the bytes at or above 0x80 may be accepted.
pub fn luts() -> [AlswLut<V128>; 4] {
    [std64::T::CHECK, url64::T::CHECK, hex16::T::CHECK, std32::T::CHECK]
}
