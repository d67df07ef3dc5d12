//! The alphabet of operations: every public entry point of the five user-facing crates.
use crate::refm;
use base32_simd::Base32;
use base64_simd::Base64;
use core::mem::MaybeUninit;
use hex_simd::AsciiCase;
use uuid_simd::UuidExt;
use vsimd::tools::{slice, slice_mut};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    EncLen,
    Enc,
    EncStr,
    EncBox,
    EncBoxStr,
    EncVec,
    EncString,
    EncToString,
    EncAppVec,
    EncAppString,
    DecLen,
    EstLen,
    Check,
    Dec,
    DecIn,
    DecBox,
    DecVec,
    DecToVec,
    DecAppVec,
}
pub use Form::*;
pub const FORMS: &[(Form, &str)] = &[
    (EncLen, "encoded_length"),
    (Enc, "encode"),
    (EncStr, "encode_as_str"),
    (EncBox, "encode_type_box"),
    (EncBoxStr, "encode_type_boxstr"),
    (EncVec, "encode_type_vec"),
    (EncString, "encode_type_string"),
    (EncToString, "encode_to_string"),
    (EncAppVec, "encode_append_vec"),
    (EncAppString, "encode_append_string"),
    (DecLen, "decoded_length"),
    (EstLen, "estimated_decoded_length"),
    (Check, "check"),
    (Dec, "decode"),
    (DecIn, "decode_inplace"),
    (DecBox, "decode_type_box"),
    (DecVec, "decode_type_vec"),
    (DecToVec, "decode_to_vec"),
    (DecAppVec, "decode_append_vec"),
];
impl Form {
    pub fn is_enc(self) -> bool {
        matches!(self, EncLen | Enc | EncStr | EncBox | EncBoxStr | EncVec | EncString | EncToString | EncAppVec | EncAppString)
    }
    pub fn is_heap(self) -> bool {
        matches!(
            self,
            EncBox | EncBoxStr | EncVec | EncString | EncToString | EncAppVec | EncAppString | DecBox | DecVec | DecToVec | DecAppVec
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    B64(u8, Form),
    B32(u8, Form),
    /// 0 lower, 1 upper (only matters for encoding)
    Hex(u8, Form),
    HexRawCheck,
    HexRawEnc(u8),
    HexRawDec,
    HexRawDecIn,
    Forg,
    ForgIn,
    ForgVec,
    UuidParse,
    UuidParseSimple,
    UuidParseHyph,
    UuidExtParse,
    UuidExtParseSimple,
    UuidExtParseHyph,
    /// case
    UuidFmtSimple(u8),
    UuidFmtHyph(u8),
    /// 0 lower hex, 1 upper hex, 2 display
    UuidExtFmtSimple(u8),
    UuidExtFmtHyph(u8),
    IsAscii,
    FromAscii,
    IsUtf32,
    Swap16,
    Swap16In,
    Swap32,
    Swap32In,
}

pub const B64V: [&Base64; 4] =
    [&base64_simd::STANDARD, &base64_simd::URL_SAFE, &base64_simd::STANDARD_NO_PAD, &base64_simd::URL_SAFE_NO_PAD];
pub const B32V: [&Base32; 4] =
    [&base32_simd::BASE32, &base32_simd::BASE32HEX, &base32_simd::BASE32_NO_PAD, &base32_simd::BASE32HEX_NO_PAD];
const B64N: [&str; 4] = ["standard", "url_safe", "standard_no_pad", "url_safe_no_pad"];
const B32N: [&str; 4] = ["base32", "base32hex", "base32_no_pad", "base32hex_no_pad"];
const CASEN: [&str; 3] = ["lower", "upper", "display"];
fn case(c: u8) -> AsciiCase {
    if c == 1 {
        AsciiCase::Upper
    } else {
        AsciiCase::Lower
    }
}

impl Op {
    pub fn name(self) -> String {
        let f = |f: Form| FORMS.iter().find(|x| x.0 == f).unwrap().1;
        match self {
            Op::B64(v, x) => format!("base64.{}.{}", B64N[v as usize], f(x)),
            Op::B32(v, x) => format!("base32.{}.{}", B32N[v as usize], f(x)),
            Op::Hex(c, x) => format!("hex.{}.{}", CASEN[c as usize], f(x)),
            Op::HexRawEnc(c) => format!("hex.{}.encode_raw", CASEN[c as usize]),
            Op::HexRawCheck => "hex.check_raw".into(),
            Op::HexRawDec => "hex.decode_raw".into(),
            Op::HexRawDecIn => "hex.decode_raw_inplace".into(),
            Op::Forg => "base64.forgiving_decode".into(),
            Op::ForgIn => "base64.forgiving_decode_inplace".into(),
            Op::ForgVec => "base64.forgiving_decode_to_vec".into(),
            Op::UuidParse => "uuid.parse".into(),
            Op::UuidParseSimple => "uuid.parse_simple".into(),
            Op::UuidParseHyph => "uuid.parse_hyphenated".into(),
            Op::UuidExtParse => "uuid.ext.parse".into(),
            Op::UuidExtParseSimple => "uuid.ext.parse_simple".into(),
            Op::UuidExtParseHyph => "uuid.ext.parse_hyphenated".into(),
            Op::UuidFmtSimple(c) => format!("uuid.format_simple.{}", CASEN[c as usize]),
            Op::UuidFmtHyph(c) => format!("uuid.format_hyphenated.{}", CASEN[c as usize]),
            Op::UuidExtFmtSimple(c) => format!("uuid.ext.format_simple.{}", CASEN[c as usize]),
            Op::UuidExtFmtHyph(c) => format!("uuid.ext.format_hyphenated.{}", CASEN[c as usize]),
            Op::IsAscii => "unicode.is_ascii".into(),
            Op::FromAscii => "unicode.from_ascii".into(),
            Op::IsUtf32 => "unicode.is_utf32le".into(),
            Op::Swap16 => "unicode.utf16_swap_endianness".into(),
            Op::Swap16In => "unicode.utf16_swap_endianness_inplace".into(),
            Op::Swap32 => "unicode.utf32_swap_endianness".into(),
            Op::Swap32In => "unicode.utf32_swap_endianness_inplace".into(),
        }
    }

    /// A number that identifies the operation.
    #[inline]
    pub fn code(self) -> u32 {
        match self {
            Op::B64(v, f) => 0x1000 | (v as u32) << 5 | f as u32,
            Op::B32(v, f) => 0x2000 | (v as u32) << 5 | f as u32,
            Op::Hex(v, f) => 0x3000 | (v as u32) << 5 | f as u32,
            Op::HexRawCheck => 1,
            Op::HexRawEnc(c) => 2 + c as u32,
            Op::HexRawDec => 5,
            Op::HexRawDecIn => 6,
            Op::Forg => 7,
            Op::ForgIn => 8,
            Op::ForgVec => 9,
            Op::UuidParse => 10,
            Op::UuidParseSimple => 11,
            Op::UuidParseHyph => 12,
            Op::UuidExtParse => 13,
            Op::UuidExtParseSimple => 14,
            Op::UuidExtParseHyph => 15,
            Op::UuidFmtSimple(c) => 16 + c as u32,
            Op::UuidFmtHyph(c) => 20 + c as u32,
            Op::UuidExtFmtSimple(c) => 24 + c as u32,
            Op::UuidExtFmtHyph(c) => 28 + c as u32,
            Op::IsAscii => 32,
            Op::FromAscii => 33,
            Op::IsUtf32 => 34,
            Op::Swap16 => 35,
            Op::Swap16In => 36,
            Op::Swap32 => 37,
            Op::Swap32In => 38,
        }
    }

    pub fn all() -> Vec<Op> {
        let mut r = vec![];
        for v in 0..4 {
            for &(f, _) in FORMS {
                r.push(Op::B64(v, f));
                r.push(Op::B32(v, f));
            }
        }
        for c in 0..2 {
            for &(f, _) in FORMS {
                if f == EstLen {
                    continue;
                }
                if c == 1 && (!f.is_enc() || f == EncLen) {
                    continue;
                }
                r.push(Op::Hex(c, f));
            }
            r.push(Op::HexRawEnc(c));
            r.push(Op::UuidFmtSimple(c));
            r.push(Op::UuidFmtHyph(c));
        }
        for c in 0..3 {
            r.push(Op::UuidExtFmtSimple(c));
            r.push(Op::UuidExtFmtHyph(c));
        }
        r.extend([
            Op::HexRawCheck,
            Op::HexRawDec,
            Op::HexRawDecIn,
            Op::Forg,
            Op::ForgIn,
            Op::ForgVec,
            Op::UuidParse,
            Op::UuidParseSimple,
            Op::UuidParseHyph,
            Op::UuidExtParse,
            Op::UuidExtParseSimple,
            Op::UuidExtParseHyph,
            Op::IsAscii,
            Op::FromAscii,
            Op::IsUtf32,
            Op::Swap16,
            Op::Swap16In,
            Op::Swap32,
            Op::Swap32In,
        ]);
        if !cfg!(feature = "alloc") {
            r.retain(|o| !o.is_heap());
        }
        r
    }

    pub fn is_heap(self) -> bool {
        match self {
            Op::B64(_, f) | Op::B32(_, f) | Op::Hex(_, f) => f.is_heap(),
            Op::ForgVec => true,
            _ => false,
        }
    }

    /// Works on its own input buffer.
    pub fn in_place(self) -> bool {
        matches!(
            self,
            Op::B64(_, DecIn) | Op::B32(_, DecIn) | Op::Hex(_, DecIn) | Op::HexRawDecIn | Op::ForgIn | Op::Swap16In | Op::Swap32In
        )
    }
    /// Takes a caller-provided destination slice.
    pub fn has_dst(self) -> bool {
        match self {
            Op::B64(_, f) | Op::B32(_, f) | Op::Hex(_, f) => matches!(f, Enc | EncStr | Dec),
            Op::HexRawEnc(_) | Op::HexRawDec | Op::Forg | Op::Swap16 | Op::Swap32 => true,
            Op::UuidParse | Op::UuidParseSimple | Op::UuidParseHyph | Op::UuidFmtSimple(_) | Op::UuidFmtHyph(_) => true,
            _ => false,
        }
    }
    /// Destination size that is always enough (for operations without a caller-visible destination size).
    pub fn fixed_dst(self, len: usize) -> usize {
        match self {
            Op::HexRawEnc(_) => len * 2,
            Op::HexRawDec => len / 2,
            Op::UuidParse | Op::UuidParseSimple | Op::UuidParseHyph => 16,
            Op::UuidFmtSimple(_) => 32,
            Op::UuidFmtHyph(_) => 36,
            _ => 64,
        }
    }
    /// The destination has a fixed size, or must be large enough by contract.
    pub fn dst_fixed(self) -> bool {
        matches!(
            self,
            Op::HexRawEnc(_) | Op::HexRawDec | Op::UuidParse | Op::UuidParseSimple | Op::UuidParseHyph | Op::UuidFmtSimple(_) | Op::UuidFmtHyph(_)
        )
    }
    /// Input unit: the source length must be a multiple of this and the source aligned to it.
    pub fn unit(self) -> usize {
        match self {
            Op::Swap16 | Op::Swap16In => 2,
            Op::Swap32 | Op::Swap32In | Op::IsUtf32 => 4,
            Op::UuidFmtSimple(_) | Op::UuidFmtHyph(_) | Op::UuidExtFmtSimple(_) | Op::UuidExtFmtHyph(_) => 16,
            _ => 1,
        }
    }
    pub fn align(self) -> usize {
        match self {
            Op::Swap16 | Op::Swap16In => 2,
            Op::Swap32 | Op::Swap32In | Op::IsUtf32 => 4,
            _ => 1,
        }
    }
    /// Input length fixed at 16 bytes.
    pub fn fixed16(self) -> bool {
        matches!(self, Op::UuidFmtSimple(_) | Op::UuidFmtHyph(_) | Op::UuidExtFmtSimple(_) | Op::UuidExtFmtHyph(_))
    }
}

/// What a call returned.
#[derive(Debug)]
pub enum R {
    Err,
    Unit,
    Bool(bool),
    Len(usize),
    /// result bytes in the destination or in place
    Bytes(*const u8, usize),
    Heap(Vec<u8>),
    /// from_ascii: some str
    Str(*const u8, usize),
}

/// What the reference model says.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exp {
    Err,
    Unit,
    Bool(bool),
    Len(usize),
    /// bytes are in the scratch vector
    Bytes,
    /// Some(str) identical to the input
    SameStr,
    NoStr,
    /// unspecified (decoded_length on rejected text: any answer), must only return
    Any,
    /// documented panic
    Panic,
}

pub const APPEND_PREFIX: &[u8] = b"prefix\x00:";
pub const APPEND_PREFIX_STR: &str = "prefix\u{e9}:";

macro_rules! codec_exec {
    ($codec:expr, $f:expr, $src:expr, $dp:expr, $dl:expr, $sl:expr) => {{
        let c = $codec;
        match $f {
            EncLen => R::Len(c.encoded_length($sl)),
            EstLen => R::Len(c.estimated_decoded_length($sl)),
            Enc => match c.encode($src, out($dp, $dl)) {
                Ok(r) => R::Bytes(r.as_ptr(), r.len()),
                Err(_) => R::Err,
            },
            EncStr => match c.encode_as_str($src, out($dp, $dl)) {
                Ok(r) => R::Bytes(r.as_ptr(), r.len()),
                Err(_) => R::Err,
            },
            DecLen => match c.decoded_length($src) {
                Ok(n) => R::Len(n),
                Err(_) => R::Err,
            },
            Check => match c.check($src) {
                Ok(()) => R::Unit,
                Err(_) => R::Err,
            },
            Dec => match c.decode($src, out($dp, $dl)) {
                Ok(r) => R::Bytes(r.as_ptr(), r.len()),
                Err(_) => R::Err,
            },
            DecIn => match c.decode_inplace(slice_mut($dp, $dl)) {
                Ok(r) => R::Bytes(r.as_ptr(), r.len()),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            EncBox => R::Heap(Vec::from(c.encode_type::<Box<[u8]>>($src))),
            #[cfg(feature = "alloc")]
            EncBoxStr => R::Heap(Vec::from(c.encode_type::<Box<str>>($src).into_boxed_bytes())),
            #[cfg(feature = "alloc")]
            EncVec => R::Heap(c.encode_type::<Vec<u8>>($src)),
            #[cfg(feature = "alloc")]
            EncString => R::Heap(c.encode_type::<String>($src).into_bytes()),
            #[cfg(feature = "alloc")]
            EncToString => R::Heap(c.encode_to_string($src).into_bytes()),
            #[cfg(feature = "alloc")]
            EncAppVec => {
                let mut v = APPEND_PREFIX.to_vec();
                c.encode_append($src, &mut v);
                R::Heap(v)
            }
            #[cfg(feature = "alloc")]
            EncAppString => {
                let mut v = String::from(APPEND_PREFIX_STR);
                c.encode_append($src, &mut v);
                R::Heap(v.into_bytes())
            }
            #[cfg(feature = "alloc")]
            DecBox => match c.decode_type::<Box<[u8]>>($src) {
                Ok(r) => R::Heap(Vec::from(r)),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            DecVec => match c.decode_type::<Vec<u8>>($src) {
                Ok(r) => R::Heap(r),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            DecToVec => match c.decode_to_vec($src) {
                Ok(r) => R::Heap(r),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            DecAppVec => {
                let mut v = APPEND_PREFIX.to_vec();
                match c.decode_append($src, &mut v) {
                    Ok(()) => R::Heap(v),
                    Err(_) => {
                        if v != APPEND_PREFIX {
                            // visible content changed on failure: report as a wrong success
                            R::Heap(v)
                        } else {
                            R::Err
                        }
                    }
                }
            }
            #[cfg(not(feature = "alloc"))]
            _ => unreachable!(),
        }
    }};
}

#[inline(always)]
unsafe fn out<'a>(p: *mut u8, len: usize) -> base64_simd::Out<'a, [u8]> {
    use base64_simd::AsOut;
    slice_mut(p.cast::<MaybeUninit<u8>>(), len).as_out()
}
#[inline(always)]
unsafe fn out_n<'a, const N: usize>(p: *mut u8) -> base64_simd::Out<'a, [u8; N]> {
    base64_simd::Out::new(p.cast::<[u8; N]>())
}

/// Calls the real code. `src`/`sl` is the source as seen by the code under test;
/// `dp`/`dl` the destination (in-place operations: the data itself).
pub unsafe fn exec(op: Op, sp: *const u8, sl: usize, dp: *mut u8, dl: usize) -> R {
    let src: &[u8] = slice(sp, sl);
    macro_rules! res_len {
        ($e:expr) => {
            match $e {
                Ok(r) => R::Bytes(r.as_ptr(), r.len()),
                Err(_) => R::Err,
            }
        };
    }
    match op {
        Op::B64(v, f) => codec_exec!(B64V[v as usize], f, src, dp, dl, sl),
        Op::B32(v, f) => codec_exec!(B32V[v as usize], f, src, dp, dl, sl),
        Op::Hex(c, f) => match f {
            EncLen => R::Len(hex_simd::encoded_length(sl)),
            EstLen => unreachable!(),
            Enc => res_len!(hex_simd::encode(src, out(dp, dl), case(c))),
            EncStr => res_len!(hex_simd::encode_as_str(src, out(dp, dl), case(c))),
            DecLen => match hex_simd::decoded_length(sl) {
                Ok(n) => R::Len(n),
                Err(_) => R::Err,
            },
            Check => match hex_simd::check(src) {
                Ok(()) => R::Unit,
                Err(_) => R::Err,
            },
            Dec => res_len!(hex_simd::decode(src, out(dp, dl))),
            DecIn => res_len!(hex_simd::decode_inplace(slice_mut(dp, dl))),
            #[cfg(feature = "alloc")]
            EncBox => R::Heap(Vec::from(hex_simd::encode_type::<Box<[u8]>>(src, case(c)))),
            #[cfg(feature = "alloc")]
            EncBoxStr => R::Heap(Vec::from(hex_simd::encode_type::<Box<str>>(src, case(c)).into_boxed_bytes())),
            #[cfg(feature = "alloc")]
            EncVec => R::Heap(hex_simd::encode_type::<Vec<u8>>(src, case(c))),
            #[cfg(feature = "alloc")]
            EncString => R::Heap(hex_simd::encode_type::<String>(src, case(c)).into_bytes()),
            #[cfg(feature = "alloc")]
            EncToString => R::Heap(hex_simd::encode_to_string(src, case(c)).into_bytes()),
            #[cfg(feature = "alloc")]
            EncAppVec => {
                let mut v = APPEND_PREFIX.to_vec();
                hex_simd::encode_append(src, &mut v, case(c));
                R::Heap(v)
            }
            #[cfg(feature = "alloc")]
            EncAppString => {
                let mut v = String::from(APPEND_PREFIX_STR);
                hex_simd::encode_append(src, &mut v, case(c));
                R::Heap(v.into_bytes())
            }
            #[cfg(feature = "alloc")]
            DecBox => match hex_simd::decode_type::<Box<[u8]>>(src) {
                Ok(r) => R::Heap(Vec::from(r)),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            DecVec => match hex_simd::decode_type::<Vec<u8>>(src) {
                Ok(r) => R::Heap(r),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            DecToVec => match hex_simd::decode_to_vec(src) {
                Ok(r) => R::Heap(r),
                Err(_) => R::Err,
            },
            #[cfg(feature = "alloc")]
            DecAppVec => {
                let mut v = APPEND_PREFIX.to_vec();
                match hex_simd::decode_append(src, &mut v) {
                    Ok(()) => R::Heap(v),
                    Err(_) => {
                        if v != APPEND_PREFIX {
                            R::Heap(v)
                        } else {
                            R::Err
                        }
                    }
                }
            }
            #[cfg(not(feature = "alloc"))]
            _ => unreachable!(),
        },
        Op::HexRawCheck => match hex_simd::check_raw(sp, sl) {
            Ok(()) => R::Unit,
            Err(_) => R::Err,
        },
        Op::HexRawEnc(c) => {
            let n = hex_simd::encode_raw(sp, sl, dp, case(c));
            R::Bytes(dp, n)
        }
        Op::HexRawDec => match hex_simd::decode_raw(sp, sl, dp) {
            Ok(n) => R::Bytes(dp, n),
            Err(_) => R::Err,
        },
        Op::HexRawDecIn => match hex_simd::decode_raw(dp, dl, dp) {
            Ok(n) => R::Bytes(dp, n),
            Err(_) => R::Err,
        },
        Op::Forg => res_len!(base64_simd::forgiving_decode(src, out(dp, dl))),
        Op::ForgIn => res_len!(base64_simd::forgiving_decode_inplace(slice_mut(dp, dl))),
        #[cfg(feature = "alloc")]
        Op::ForgVec => match base64_simd::forgiving_decode_to_vec(src) {
            Ok(v) => R::Heap(v),
            Err(_) => R::Err,
        },
        #[cfg(not(feature = "alloc"))]
        Op::ForgVec => unreachable!(),
        Op::UuidParse => res_len!(uuid_simd::parse(src, out_n(dp))),
        Op::UuidParseSimple => res_len!(uuid_simd::parse_simple(src, out_n(dp))),
        Op::UuidParseHyph => res_len!(uuid_simd::parse_hyphenated(src, out_n(dp))),
        Op::UuidExtParse => uuid_res(<uuid::Uuid as UuidExt>::parse(src), dp),
        Op::UuidExtParseSimple => uuid_res(<uuid::Uuid as UuidExt>::parse_simple(src), dp),
        Op::UuidExtParseHyph => uuid_res(<uuid::Uuid as UuidExt>::parse_hyphenated(src), dp),
        Op::UuidFmtSimple(c) => {
            let r = uuid_simd::format_simple(&*sp.cast::<[u8; 16]>(), out_n(dp), case(c));
            R::Bytes(r.as_ptr(), r.len())
        }
        Op::UuidFmtHyph(c) => {
            let r = uuid_simd::format_hyphenated(&*sp.cast::<[u8; 16]>(), out_n(dp), case(c));
            R::Bytes(r.as_ptr(), r.len())
        }
        Op::UuidExtFmtSimple(c) => {
            let u = uuid::Uuid::from_bytes(*sp.cast::<[u8; 16]>());
            let a = u.format_simple();
            let mut b = FmtBuf::new();
            fmt_case(&mut b, c, &a);
            b.done(dp)
        }
        Op::UuidExtFmtHyph(c) => {
            let u = uuid::Uuid::from_bytes(*sp.cast::<[u8; 16]>());
            let a = u.format_hyphenated();
            let mut b = FmtBuf::new();
            fmt_case(&mut b, c, &a);
            b.done(dp)
        }
        Op::IsAscii => R::Bool(unicode_simd::is_ascii(src)),
        Op::FromAscii => match unicode_simd::from_ascii(src) {
            Some(s) => R::Str(s.as_ptr(), s.len()),
            None => R::Err,
        },
        Op::IsUtf32 => R::Bool(unicode_simd::is_utf32le(slice(sp.cast::<u32>(), sl / 4))),
        Op::Swap16 => {
            use unicode_simd::AsOut;
            let r = unicode_simd::utf16_swap_endianness(slice(sp.cast::<u16>(), sl / 2), slice_mut(dp.cast::<MaybeUninit<u16>>(), dl / 2).as_out());
            R::Bytes(r.as_ptr().cast(), r.len() * 2)
        }
        Op::Swap32 => {
            use unicode_simd::AsOut;
            let r = unicode_simd::utf32_swap_endianness(slice(sp.cast::<u32>(), sl / 4), slice_mut(dp.cast::<MaybeUninit<u32>>(), dl / 4).as_out());
            R::Bytes(r.as_ptr().cast(), r.len() * 4)
        }
        Op::Swap16In => {
            unicode_simd::utf16_swap_endianness_inplace(slice_mut(dp.cast::<u16>(), dl / 2));
            R::Bytes(dp, dl)
        }
        Op::Swap32In => {
            unicode_simd::utf32_swap_endianness_inplace(slice_mut(dp.cast::<u32>(), dl / 4));
            R::Bytes(dp, dl)
        }
    }
}

unsafe fn uuid_res(r: Result<uuid::Uuid, uuid_simd::Error>, dp: *mut u8) -> R {
    match r {
        Ok(u) => {
            core::ptr::copy_nonoverlapping(u.as_bytes().as_ptr(), dp, 16);
            R::Bytes(dp, 16)
        }
        Err(_) => R::Err,
    }
}

struct FmtBuf {
    b: [u8; 64],
    n: usize,
}
impl FmtBuf {
    fn new() -> FmtBuf {
        FmtBuf { b: [0; 64], n: 0 }
    }
    unsafe fn done(self, dp: *mut u8) -> R {
        core::ptr::copy_nonoverlapping(self.b.as_ptr(), dp, self.n);
        R::Bytes(dp, self.n)
    }
}
impl core::fmt::Write for FmtBuf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        if self.n + s.len() > 64 {
            return Err(core::fmt::Error);
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        Ok(())
    }
}
fn fmt_case<T: core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Display>(b: &mut FmtBuf, c: u8, t: &T) {
    use core::fmt::Write;
    let _ = match c {
        0 => write!(b, "{:x}", t),
        1 => write!(b, "{:X}", t),
        _ => write!(b, "{}", t),
    };
}

/// The reference result of `op` on `input` with a destination of `dl` bytes. Result bytes go to `out`.
pub fn expect(op: Op, input: &[u8], dl: usize, out: &mut Vec<u8>, tmp: &mut Vec<u8>) -> Exp {
    let n = input.len();
    match op {
        Op::B64(_, f) | Op::B32(_, f) | Op::Hex(_, f) => match f {
            EncLen => Exp::Len(enc_len(op, n)),
            EstLen => Exp::Any, // checked by C20
            Enc | EncStr => {
                enc(op, input, out);
                if out.len() > dl {
                    Exp::Err
                } else {
                    Exp::Bytes
                }
            }
            EncBox | EncBoxStr | EncVec | EncString | EncToString => {
                enc(op, input, out);
                Exp::Bytes
            }
            EncAppVec | EncAppString => {
                enc(op, input, tmp);
                out.clear();
                out.extend_from_slice(if f == EncAppVec { APPEND_PREFIX } else { APPEND_PREFIX_STR.as_bytes() });
                out.extend_from_slice(tmp);
                Exp::Bytes
            }
            DecLen => match op {
                Op::Hex(..) => {
                    if n % 2 == 0 {
                        Exp::Len(n / 2)
                    } else {
                        Exp::Err
                    }
                }
                _ => {
                    if dec(op, input, out) {
                        Exp::Len(out.len())
                    } else {
                        Exp::Any
                    }
                }
            },
            Check => {
                let ok = match op {
                    Op::Hex(..) => refm::hex_check(input),
                    _ => dec(op, input, out),
                };
                if ok {
                    Exp::Unit
                } else {
                    Exp::Err
                }
            }
            Dec => {
                if dec(op, input, out) && out.len() <= dl {
                    Exp::Bytes
                } else {
                    Exp::Err
                }
            }
            DecIn | DecBox | DecVec | DecToVec => {
                if dec(op, input, out) {
                    Exp::Bytes
                } else {
                    Exp::Err
                }
            }
            DecAppVec => {
                if dec(op, input, tmp) {
                    out.clear();
                    out.extend_from_slice(APPEND_PREFIX);
                    out.extend_from_slice(tmp);
                    Exp::Bytes
                } else {
                    Exp::Err
                }
            }
        },
        Op::HexRawCheck => {
            if refm::hex_check(input) {
                Exp::Unit
            } else {
                Exp::Err
            }
        }
        Op::HexRawEnc(c) => {
            refm::hex_encode(c == 1, input, out);
            Exp::Bytes
        }
        Op::HexRawDec | Op::HexRawDecIn => {
            if refm::hex_decode(input, out) {
                Exp::Bytes
            } else {
                Exp::Err
            }
        }
        Op::Forg => {
            if n <= dl && refm::forgiving(input, tmp, out) {
                Exp::Bytes
            } else {
                Exp::Err
            }
        }
        Op::ForgIn | Op::ForgVec => {
            if refm::forgiving(input, tmp, out) {
                Exp::Bytes
            } else {
                Exp::Err
            }
        }
        Op::UuidParse | Op::UuidExtParse => {
            if refm::uuid_any(input, out) {
                Exp::Bytes
            } else {
                Exp::Err
            }
        }
        Op::UuidParseSimple | Op::UuidExtParseSimple => {
            if refm::uuid_simple(input, out) {
                Exp::Bytes
            } else {
                Exp::Err
            }
        }
        Op::UuidParseHyph | Op::UuidExtParseHyph => {
            if refm::uuid_hyphenated(input, out) {
                Exp::Bytes
            } else {
                Exp::Err
            }
        }
        Op::UuidFmtSimple(c) | Op::UuidExtFmtSimple(c) => {
            refm::uuid_format(false, c == 1, input, out);
            Exp::Bytes
        }
        Op::UuidFmtHyph(c) | Op::UuidExtFmtHyph(c) => {
            refm::uuid_format(true, c == 1, input, out);
            Exp::Bytes
        }
        Op::IsAscii => Exp::Bool(refm::is_ascii(input)),
        Op::FromAscii => {
            if refm::is_ascii(input) {
                Exp::SameStr
            } else {
                Exp::NoStr
            }
        }
        Op::IsUtf32 => Exp::Bool(refm::is_utf32(input)),
        Op::Swap16 | Op::Swap32 => {
            if n > dl {
                Exp::Panic
            } else {
                refm::swap(op.unit(), input, out);
                Exp::Bytes
            }
        }
        Op::Swap16In | Op::Swap32In => {
            refm::swap(op.unit(), input, out);
            Exp::Bytes
        }
    }
}

pub fn enc_len(op: Op, n: usize) -> usize {
    match op {
        Op::B64(v, _) => refm::b64_enc_len(refm::b64_set(v).2, n as u128) as usize,
        Op::B32(v, _) => refm::b32_enc_len(refm::b32_set(v).2, n as u128) as usize,
        _ => n * 2,
    }
}
pub fn enc(op: Op, input: &[u8], out: &mut Vec<u8>) {
    match op {
        Op::B64(v, _) => refm::b64_encode(v, input, out),
        Op::B32(v, _) => refm::b32_encode(v, input, out),
        Op::Hex(c, _) => refm::hex_encode(c == 1, input, out),
        _ => unreachable!(),
    }
}
pub fn dec(op: Op, input: &[u8], out: &mut Vec<u8>) -> bool {
    match op {
        Op::B64(v, _) => refm::b64_decode(v, input, out),
        Op::B32(v, _) => refm::b32_decode(v, input, out),
        Op::Hex(..) => refm::hex_decode(input, out),
        _ => unreachable!(),
    }
}
