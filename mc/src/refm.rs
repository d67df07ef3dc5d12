//! Reference models: written from RFC 4648, the WHATWG infra standard, RFC 4122 and the Unicode standard,
//! one symbol at a time.

pub const B64_STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub const B64_URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub const B32_STD: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
pub const B32_HEX: &[u8; 32] = b"0123456789ABCDEFGHIJKLMNOPQRSTUV";

const fn rev<const N: usize>(set: &[u8; N]) -> [u8; 256] {
    let mut t = [0xff; 256];
    let mut i = 0;
    while i < N {
        t[set[i] as usize] = i as u8;
        i += 1;
    }
    t
}
pub static B64_STD_REV: [u8; 256] = rev(B64_STD);
pub static B64_URL_REV: [u8; 256] = rev(B64_URL);
pub static B32_STD_REV: [u8; 256] = rev(B32_STD);
pub static B32_HEX_REV: [u8; 256] = rev(B32_HEX);

/// variant: 0 std pad, 1 url pad, 2 std no pad, 3 url no pad
pub fn b64_set(v: u8) -> (&'static [u8; 64], &'static [u8; 256], bool) {
    match v {
        0 => (B64_STD, &B64_STD_REV, true),
        1 => (B64_URL, &B64_URL_REV, true),
        2 => (B64_STD, &B64_STD_REV, false),
        _ => (B64_URL, &B64_URL_REV, false),
    }
}
/// variant: 0 base32, 1 base32hex, 2/3 the same without padding
pub fn b32_set(v: u8) -> (&'static [u8; 32], &'static [u8; 256], bool) {
    match v {
        0 => (B32_STD, &B32_STD_REV, true),
        1 => (B32_HEX, &B32_HEX_REV, true),
        2 => (B32_STD, &B32_STD_REV, false),
        _ => (B32_HEX, &B32_HEX_REV, false),
    }
}

pub fn b64_encode(v: u8, src: &[u8], out: &mut Vec<u8>) {
    let (set, _, pad) = b64_set(v);
    out.clear();
    for g in src.chunks(3) {
        let mut x = (g[0] as u32) << 16;
        if g.len() > 1 {
            x |= (g[1] as u32) << 8;
        }
        if g.len() > 2 {
            x |= g[2] as u32;
        }
        let c = [set[(x >> 18) as usize], set[(x >> 12 & 63) as usize], set[(x >> 6 & 63) as usize], set[(x & 63) as usize]];
        out.extend_from_slice(&c[..g.len() + 1]);
        if pad {
            for _ in g.len()..3 {
                out.push(b'=');
            }
        }
    }
}

/// Decodes symbols; `strict` rejects non-zero trailing bits. Length residue 1 is an error.
fn b64_symbols(rev: &[u8; 256], s: &[u8], strict: bool, out: &mut Vec<u8>) -> bool {
    if s.len() % 4 == 1 {
        return false;
    }
    let mut acc: u32 = 0;
    let mut bits = 0;
    for &c in s {
        let d = rev[c as usize];
        if d == 0xff {
            return false;
        }
        acc = (acc << 6) | d as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    !(strict && acc != 0)
}

pub fn b64_decode(v: u8, s: &[u8], out: &mut Vec<u8>) -> bool {
    let (_, rev, pad) = b64_set(v);
    out.clear();
    let mut n = s.len();
    if pad {
        if n % 4 != 0 {
            return false;
        }
        // at most two padding characters
        if n > 0 && s[n - 1] == b'=' {
            n -= 1;
            if s[n - 1] == b'=' {
                n -= 1;
            }
        }
    }
    b64_symbols(rev, &s[..n], true, out)
}

#[inline]
pub fn is_ws(c: u8) -> bool {
    c == 0x09 || c == 0x0a || c == 0x0c || c == 0x0d || c == 0x20
}

/// https://infra.spec.whatwg.org/#forgiving-base64-decode
pub fn forgiving(s: &[u8], tmp: &mut Vec<u8>, out: &mut Vec<u8>) -> bool {
    out.clear();
    tmp.clear();
    tmp.extend(s.iter().copied().filter(|&c| !is_ws(c)));
    if tmp.len() % 4 == 0 {
        if tmp.last() == Some(&b'=') {
            tmp.pop();
            if tmp.last() == Some(&b'=') {
                tmp.pop();
            }
        }
    }
    b64_symbols(&B64_STD_REV, tmp, false, out)
}

pub fn b32_encode(v: u8, src: &[u8], out: &mut Vec<u8>) {
    let (set, _, pad) = b32_set(v);
    out.clear();
    for g in src.chunks(5) {
        let mut x: u64 = 0;
        for i in 0..5 {
            x = x << 8 | (if i < g.len() { g[i] as u64 } else { 0 });
        }
        let nsym = (g.len() * 8 + 4) / 5;
        for i in 0..8 {
            if i < nsym {
                out.push(set[(x >> (35 - 5 * i) & 31) as usize]);
            } else if pad {
                out.push(b'=');
            }
        }
    }
}

pub fn b32_decode(v: u8, s: &[u8], out: &mut Vec<u8>) -> bool {
    let (_, rev, pad) = b32_set(v);
    out.clear();
    let mut n = s.len();
    if pad {
        if n % 8 != 0 {
            return false;
        }
        let mut k = 0;
        while n > 0 && k < 6 && s[n - 1] == b'=' {
            n -= 1;
            k += 1;
        }
        // 1, 3, 4 or 6 padding characters
        if !matches!(k, 0 | 1 | 3 | 4 | 6) {
            return false;
        }
    }
    if matches!(n % 8, 1 | 3 | 6) {
        return false;
    }
    let mut acc: u32 = 0;
    let mut bits = 0;
    for &c in &s[..n] {
        let d = rev[c as usize];
        if d == 0xff {
            return false;
        }
        acc = (acc << 5) | d as u32;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    acc == 0
}

pub fn hex_encode(upper: bool, src: &[u8], out: &mut Vec<u8>) {
    let set: &[u8; 16] = if upper { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    out.clear();
    for &b in src {
        out.push(set[(b / 16) as usize]);
        out.push(set[(b % 16) as usize]);
    }
}

#[inline]
pub fn hexval(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0xff,
    }
}
pub fn hex_check(s: &[u8]) -> bool {
    s.iter().all(|&c| hexval(c) != 0xff)
}
pub fn hex_decode(s: &[u8], out: &mut Vec<u8>) -> bool {
    out.clear();
    if s.len() % 2 != 0 {
        return false;
    }
    for p in s.chunks_exact(2) {
        let (a, b) = (hexval(p[0]), hexval(p[1]));
        if a == 0xff || b == 0xff {
            return false;
        }
        out.push(a * 16 + b);
    }
    true
}

pub fn uuid_simple(s: &[u8], out: &mut Vec<u8>) -> bool {
    out.clear();
    s.len() == 32 && hex_decode(s, out)
}
pub fn uuid_hyphenated(s: &[u8], out: &mut Vec<u8>) -> bool {
    out.clear();
    if s.len() != 36 {
        return false;
    }
    let mut hi = 0xff;
    for (i, &c) in s.iter().enumerate() {
        if i == 8 || i == 13 || i == 18 || i == 23 {
            if c != b'-' {
                return false;
            }
            continue;
        }
        let d = hexval(c);
        if d == 0xff {
            return false;
        }
        if hi == 0xff {
            hi = d;
        } else {
            out.push(hi * 16 + d);
            hi = 0xff;
        }
    }
    true
}
pub fn uuid_any(s: &[u8], out: &mut Vec<u8>) -> bool {
    out.clear();
    match s.len() {
        32 => uuid_simple(s, out),
        36 => uuid_hyphenated(s, out),
        38 => s[0] == b'{' && s[37] == b'}' && uuid_hyphenated(&s[1..37], out),
        45 => &s[..9] == b"urn:uuid:" && uuid_hyphenated(&s[9..], out),
        _ => false,
    }
}
pub fn uuid_format(hyphen: bool, upper: bool, b: &[u8], out: &mut Vec<u8>) {
    hex_encode(upper, b, out);
    if hyphen {
        for (k, pos) in [8usize, 12, 16, 20].iter().enumerate() {
            out.insert(pos + k, b'-');
        }
    }
}

pub fn is_ascii(s: &[u8]) -> bool {
    for &b in s {
        if b > 0x7f {
            return false;
        }
    }
    true
}
pub fn is_scalar(x: u32) -> bool {
    x < 0xD800 || (x > 0xDFFF && x < 0x110000)
}
pub fn is_utf32(s: &[u8]) -> bool {
    s.chunks_exact(4).all(|c| is_scalar(u32::from_le_bytes([c[0], c[1], c[2], c[3]])))
}
pub fn swap(unit: usize, s: &[u8], out: &mut Vec<u8>) {
    out.clear();
    for c in s.chunks_exact(unit) {
        for i in (0..unit).rev() {
            out.push(c[i]);
        }
    }
}

// exact arithmetic for the length calculations
pub fn b64_enc_len(pad: bool, n: u128) -> u128 {
    if pad {
        (n + 2) / 3 * 4
    } else {
        (n * 8 + 5) / 6
    }
}
pub fn b32_enc_len(pad: bool, n: u128) -> u128 {
    if pad {
        (n + 4) / 5 * 8
    } else {
        (n * 8 + 4) / 5
    }
}
