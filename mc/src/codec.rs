//! C01, C02, C04-C07: exhaustive input enumerations for the three text codecs.
use crate::env::{self, Place::{self, *}};
use crate::explore::X;
use crate::ops::{self, *};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Codec {
    C64,
    C32,
    CHex,
}
pub use Codec::*;

impl Codec {
    pub fn op(self, v: u8, f: Form) -> Op {
        match self {
            C64 => Op::B64(v, f),
            C32 => Op::B32(v, f),
            CHex => Op::Hex(v, f),
        }
    }
    pub fn variants(self) -> u8 {
        match self {
            CHex => 2,
            _ => 4,
        }
    }
    /// variants that differ when decoding
    pub fn dec_variants(self) -> u8 {
        match self {
            CHex => 1,
            _ => 4,
        }
    }
    /// (bytes, symbols) per group
    pub fn group(self) -> (usize, usize) {
        match self {
            C64 => (3, 4),
            C32 => (5, 8),
            CHex => (1, 2),
        }
    }
    /// boundary characters of the alphabet and their neighbours
    pub fn classes(self, small: bool) -> Vec<u8> {
        let s: &[u8] = match (self, small) {
            (C64, true) => b"A/+-_=z9\x00\x80\xff[",
            (C64, false) => b"A/+-_=z9\x00\x80\xff[Za0@`{:.,*\x20\x7f\xab\xc1\xe1",
            (C32, true) => b"A7V0=a8\x00\x80\xff[@",
            (C32, false) => b"A7V0=a8\x00\x80\xff[@Z29W1/:v\x20\x7f\xc1\xb2",
            (CHex, true) => b"0fA:@G`g/\x00\x80\xff",
            (CHex, false) => b"0fA:@G`g/\x00\x80\xff9aF\x10\x16\x19\x20\x7f\xb0\xc1\xe1\xc6",
        };
        s.to_vec()
    }
}

pub const NPAT: usize = 8;
#[inline]
pub fn pat(p: usize, i: usize, len: usize) -> u8 {
    match p {
        0 => (i as u8).wrapping_mul(37).wrapping_add(len as u8),
        1 => 0xff,
        2 => {
            let mut x = (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (len as u64).wrapping_mul(0xD1B54A32D192ED03);
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58476D1CE4E5B9);
            (x >> 56) as u8
        }
        3 => 0,
        4 => i as u8,
        5 => {
            if i % 2 == 0 {
                0xaa
            } else {
                0x55
            }
        }
        6 => 0x80 | (i as u8 & 0x7f),
        _ => 255 - (i as u8),
    }
}
pub fn fill_pat(buf: &mut [u8], p: usize) {
    let len = buf.len();
    for (i, b) in buf.iter_mut().enumerate() {
        *b = pat(p, i, len);
    }
}
pub fn canonical(c: Codec, v: u8, nbytes: usize, p: usize) -> Vec<u8> {
    let mut raw = vec![0; nbytes];
    fill_pat(&mut raw, p);
    let mut out = vec![];
    ops::enc(c.op(v, Enc), &raw, &mut out);
    if c == CHex && p == 2 {
        // mixed case
        for (i, b) in out.iter_mut().enumerate() {
            if i % 3 == 1 {
                *b = b.to_ascii_uppercase();
            }
        }
    }
    out
}

/// Lengths around powers of two, up to and including 2^max, and around 3 * 2^k.
pub fn window_lengths(min: u32, max: u32, r: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in min..=max {
        for base in [1usize << k, 3usize << (k - 1)] {
            for d in 0..=2 * r {
                v.push(base + d - r);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// (source, destination) offsets in a page: the first 64 of each, then buffers that cross a page boundary.
pub fn placements(unit: usize) -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    for so in 0..64 {
        for d in 0..64 {
            v.push((so, d, false));
        }
    }
    for k in 1..=100usize {
        v.push((env::PAGE - k, (k * 7) % 64, true));
        v.push(((k * 5) % 64, env::PAGE - k, true));
        v.push((env::PAGE - k, env::PAGE - ((k * 11) % 100 + 1), true));
    }
    v.retain(|p| p.0 % unit == 0 && p.1 % unit == 0);
    v
}
/// Lengths at which every position is tried.
pub fn long_lengths(t: bool) -> Vec<usize> {
    let mut v = vec![600, 700, 811, 900, 1000, 1277, 1531, 2048 + 13, 3000, 4096 + 37, 5000, 6000, 8192 + 61, 12345, 16384 + 77];
    if t {
        v.extend([1800, 2500, 3500, 4500, 7001, 9001, 10007, 20011, 25000, 32768 + 99, 65536 + 50, 100003]);
    }
    v
}
/// Positions tried in very long inputs.
pub fn sparse(len: usize, t: bool) -> Vec<usize> {
    let mut v = vec![];
    let e = if t { 200 } else { 70 };
    v.extend(0..e.min(len));
    v.extend(len.saturating_sub(e)..len);
    let mut k = 1usize << 12;
    while k < len {
        v.extend((k.saturating_sub(if t { 40 } else { 3 })..k + if t { 40 } else { 3 }).filter(|&i| i < len));
        k *= 2;
    }
    v.extend((0..len).step_by((len / if t { 5000 } else { 500 }).max(1) | 1));
    v.sort();
    v.dedup();
    v
}
/// Texts with two or many bad units, for code that adds up what it finds before it looks: every pair of places in
/// long texts, and `k` bad units at equal distances for every `k` up to beyond 256, and around powers of two up to
/// 65536. `run(x, len, b, k)` runs the operations on the text in the buffer; `text(b)` fills in a good text.
pub fn multi(
    x: &mut X,
    unit: usize,
    lens: &[usize],
    lanes: usize,
    text: &dyn Fn(&mut [u8], usize),
    bad: &[&[u8]],
    run: &dyn Fn(&mut X, &mut [u8], usize, usize),
) {
    let t = x.thorough;
    let nb = bad.len();
    for (li, &n) in lens.iter().enumerate() {
        for i in (0..4 * lanes).chain(n - lanes * 2..n) {
            if !x.mine() {
                continue;
            }
            let b = x.src_buf(End, n * unit);
            text(b, li);
            let old = b.to_vec();
            let put = |b: &mut [u8], i: usize, k: usize| b[i * unit..(i + 1) * unit].copy_from_slice(bad[k % nb]);
            for j in i + 1..n {
                // far away only at distances that are multiples of eight
                if n > 3000 && j - i > 2 * lanes && n - j > lanes && (j - i) % 8 != 0 && !t {
                    continue;
                }
                for k in 0..if n > 3000 && !t { 3 } else { 3 * nb } {
                    put(b, i, i / lanes + k / 3);
                    put(b, j, i / lanes + k / 3);
                    run(x, b, li, k);
                }
                b[j * unit..(j + 1) * unit].copy_from_slice(&old[j * unit..(j + 1) * unit]);
            }
        }
    }
    // equal distances
    let big: Vec<usize> = (1..=if t { 1100 } else { 520 }).chain([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    for s in [1usize, 2, 3, 4, 8, 16, 32, 64, 128, 256] {
        for &k in &big {
            if k > 5000 && s * k * unit > if t { 36 << 20 } else { 5 << 20 } || !x.mine() {
                continue;
            }
            for (first, tail) in [(0usize, 0usize), (s - 1, lanes + 3), (s / 2, 3 * lanes)] {
                let n = (first + s * (k - 1) + 1 + tail + 7) / 8 * 8;
                let b = x.src_buf(End, n * unit);
                text(b, k + tail);
                for c in 0..k {
                    let at = (first + s * c) * unit;
                    b[at..at + unit].copy_from_slice(bad[(k + tail) % nb]);
                }
                run(x, b, k + tail, k);
                if k < 5000 {
                    run(x, b, k + tail, k + 1);
                    run(x, b, k + tail, k + 2);
                }
            }
        }
    }
    x.sample(format!("two bad units in texts of {lens:?} units, k bad units at equal distances 1..=256 for k up to 65537"));
}

pub const VERY_LONG: [usize; 5] = [32768 + 99, 65536 + 50, 131072 + 57, 262144 + 5, (1 << 20) + 33];

// ---------------------------------------------------------------------------------------------- encode
pub fn enc_parts(c: Codec, x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "lengths" => {
            let max = if t { 5000 } else { 1300 };
            for len in 0..=max {
                if !x.mine() {
                    continue;
                }
                for p in 0..NPAT {
                    for v in 0..c.variants() {
                        let op = c.op(v, Enc);
                        let m = ops::enc_len(op, len);
                        for pl in [Start, End] {
                            let b = x.src_buf(pl, len);
                            fill_pat(b, p);
                            x.run(op, pl, len, pl, m);
                            x.run(c.op(v, EncLen), pl, len, pl, m);
                        }
                        if p == 2 {
                            x.run(c.op(v, EncStr), End, len, End, m);
                        }
                    }
                }
            }
            x.sample(format!("every length 0..={max} x {NPAT} contents x 2 placements"));
        }
        "bytes" => {
            // every byte value at every position of every length
            let max = if t { 260 } else { 132 };
            for len in 1..=max {
                if !x.mine() {
                    continue;
                }
                for bg in [2usize, 3] {
                    if bg == 3 && !t && len > 70 {
                        continue;
                    }
                    for v in 0..c.variants() {
                        let op = c.op(v, Enc);
                        let m = ops::enc_len(op, len);
                        let b = x.src_buf(End, len);
                        fill_pat(b, bg);
                        for i in 0..len {
                            let old = b[i];
                            for val in 0..=255u8 {
                                b[i] = val;
                                x.run(op, End, len, End, m);
                            }
                            b[i] = old;
                        }
                    }
                }
            }
            x.sample(format!("every (length 1..={max}, position, byte value)"));
        }
        "groups" => enc_groups(c, x),
        "windows" => {
            let max = if t { 24 } else { 21 };
            let r = if t { 40 } else { 33 };
            for len in window_lengths(9, max, r) {
                if len > (1 << 18) && !t && len % 5 != 0 && len % 4 != 3 {
                    continue;
                }
                if !x.mine() {
                    continue;
                }
                let vs = if len > 1 << 14 { 1 } else { c.variants() };
                for v in 0..vs {
                    // alternate the variant for big inputs
                    let v = if vs == 1 { (len % c.variants() as usize) as u8 } else { v };
                    let op = c.op(v, Enc);
                    let m = ops::enc_len(op, len);
                    let b = x.src_buf(End, len);
                    fill_pat(b, 2);
                    x.run(op, End, len, End, m);
                }
            }
        }
        "align" => {
            let lens: Vec<usize> = (0..=150).chain([191, 192, 193, 255, 256, 257]).collect();
            for (so, d_o, cross) in placements(1) {
                if !x.mine() {
                    continue;
                }
                {
                    for &len in &lens {
                        if !t && !cross && (so * 7 + d_o * 3 + len) % 2 != 0 {
                            continue;
                        }
                        let v = ((so + d_o + len) % c.variants() as usize) as u8;
                        let op = c.op(v, Enc);
                        let b = x.src_buf(At(so), len);
                        fill_pat(b, 0);
                        let m = ops::enc_len(op, len);
                        x.run(op, At(so), len, At(d_o), m);
                    }
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}

fn enc_groups(c: Codec, x: &mut X) {
    let t = x.thorough;
    match c {
        C64 => {
            // all 2^24 groups of 3 bytes, in every lane of the vector block
            for shift in 0..8usize {
                for a in 0..=255u8 {
                    if !x.mine() {
                        continue;
                    }
                    let len = (65536 + shift) * 3;
                    let b = x.src_buf(End, len);
                    for i in 0..shift * 3 {
                        b[i] = 0x5c;
                    }
                    for k in 0..65536usize {
                        let o = (shift + k) * 3;
                        // the first byte varies slowest; thorough also rotates the roles
                        b[o] = a;
                        b[o + 1] = (k >> 8) as u8;
                        b[o + 2] = k as u8;
                    }
                    for v in 0..2u8 {
                        let op = c.op(v, Enc);
                        let m = ops::enc_len(op, len);
                        x.run(op, End, len, End, m);
                        x.group("3-byte groups encoded", 65536);
                    }
                }
            }
            x.sample("all 2^24 three-byte groups at each of 8 group lanes, both alphabets".into());
        }
        C32 => {
            // all values of every pair of bytes of a 5-byte group, 3 backgrounds, in every lane
            for shift in 0..4usize {
                for i in 0..5usize {
                    for j in i + 1..5 {
                        for bg in [0u8, 0xff, 0xa5] {
                            if !x.mine() {
                                continue;
                            }
                            let len = (65536 + shift) * 5;
                            let b = x.src_buf(End, len);
                            b.fill(bg);
                            for k in 0..65536usize {
                                let o = (shift + k) * 5;
                                b[o + i] = (k >> 8) as u8;
                                b[o + j] = k as u8;
                            }
                            for v in 0..2u8 {
                                let op = c.op(v, Enc);
                                let m = ops::enc_len(op, len);
                                x.run(op, End, len, End, m);
                                x.group("5-byte groups encoded", 65536);
                            }
                        }
                    }
                }
            }
            // all values of three adjacent bytes (each symbol depends on at most two)
            for i in 0..3usize {
                for a in 0..=255u8 {
                    if !t && a % 3 != 0 && a < 0xf0 {
                        continue;
                    }
                    if !x.mine() {
                        continue;
                    }
                    let len = 65536 * 5;
                    let b = x.src_buf(End, len);
                    b.fill(0x3c);
                    for k in 0..65536usize {
                        let o = k * 5;
                        b[o + i] = a;
                        b[o + i + 1] = (k >> 8) as u8;
                        b[o + i + 2] = k as u8;
                    }
                    let op = c.op((a & 1) as u8, Enc);
                    let m = ops::enc_len(op, len);
                    x.run(op, End, len, End, m);
                    x.group("5-byte groups encoded", 65536);
                }
            }
            x.sample("all values of every byte pair of a 5-byte group x 3 backgrounds x 4 lanes".into());
        }
        CHex => {
            // all values of every pair of bytes of a 32-byte block
            for i in 0..32usize {
                for j in i + 1..32 {
                    if !x.mine() {
                        continue;
                    }
                    let nblk = 65536usize;
                    if !t && j != i + 1 && j != i + 16 && i % 8 != 0 {
                        continue;
                    }
                    let len = nblk * 32;
                    let b = x.src_buf(End, len);
                    b.fill(0x9c);
                    for k in 0..nblk {
                        b[k * 32 + i] = (k >> 8) as u8;
                        b[k * 32 + j] = k as u8;
                    }
                    for v in 0..2u8 {
                        let op = c.op(v, Enc);
                        x.run(op, End, len, End, len * 2);
                        x.group("32-byte blocks encoded", 65536);
                    }
                }
            }
            x.sample("all 2^16 values of byte pairs (i,j) of a 32-byte block".into());
        }
    }
}

// ---------------------------------------------------------------------------------------------- decode
const DEC_OPS: [Form; 3] = [Check, Dec, DecIn];

#[inline]
fn dec_all(c: Codec, v: u8, x: &mut X, pl: Place, len: usize, dl: usize) {
    for f in DEC_OPS {
        x.run(c.op(v, f), pl, len, pl, dl);
    }
}

pub fn dec_parts(c: Codec, x: &mut X, part: &str) {
    let t = x.thorough;
    let (gi, go) = c.group();
    match part {
        "lengths" => {
            let max = if t { 4000 } else { 1000 };
            for nb in 0..=max {
                if !x.mine() {
                    continue;
                }
                for p in 0..NPAT {
                    for v in 0..c.dec_variants() {
                        let s = canonical(c, v, nb, p);
                        for pl in [Start, End] {
                            x.put(pl, &s);
                            dec_all(c, v, x, pl, s.len(), nb);
                            x.run(c.op(v, DecLen), pl, s.len(), pl, nb);
                        }
                    }
                }
            }
            x.sample(format!("canonical texts of every byte string length 0..={max} x {NPAT} contents"));
        }
        "bytes" => {
            // every byte value at every position of every canonical text (single substitution)
            let max = if t { 200 } else { 140 };
            for nb in 1..=max * gi / go {
                for bg in [2usize, 3] {
                    if bg == 3 && !t && nb > 40 {
                        continue;
                    }
                    for v in 0..c.dec_variants() {
                        if !x.mine() {
                            continue;
                        }
                        let s = canonical(c, v, nb, bg);
                        let len = s.len();
                        x.put(End, &s);
                        let b = x.src_buf(End, len);
                        for i in 0..len {
                            for val in 0..=255u8 {
                                b[i] = val;
                                dec_all(c, v, x, End, len, nb);
                                if i + go >= len {
                                    x.run(c.op(v, DecLen), End, len, End, nb);
                                }
                            }
                            b[i] = s[i];
                        }
                    }
                }
            }
            x.sample(format!("every single-byte substitution in canonical texts of up to {max} symbols"));
        }
        "long1" => {
            // single invalid or altered byte at every position of longer texts
            let lens: Vec<usize> = if t {
                (140..=400).chain(500..=530).chain(1010..=1040).chain(4080..=4110).collect()
            } else {
                (140..=330).step_by(1).chain(508..=518).chain(1021..=1028).chain([4094, 4096, 4099]).collect()
            };
            let cls: &[u8] = match c {
                C64 => b"=\x80!A",
                C32 => b"=\x80a0",
                CHex => b"\x80gf@",
            };
            for len0 in lens {
                let nb = len0 * gi / go;
                for v in 0..c.dec_variants() {
                    if len0 > 330 && v != (len0 % c.dec_variants() as usize) as u8 {
                        continue;
                    }
                    if !x.mine() {
                        continue;
                    }
                    let s = canonical(c, v, nb, 2);
                    let len = s.len();
                    x.put(End, &s);
                    let b = x.src_buf(End, len);
                    for i in 0..len {
                        for (k, &val) in cls.iter().enumerate() {
                            if !t && len0 > 200 && (k + i) % 4 > 1 {
                                continue;
                            }
                            b[i] = val;
                            let f = [Dec, Check, DecIn][(i + k) % 3];
                            x.run(c.op(v, f), End, len, End, nb);
                            if t {
                                x.run(c.op(v, [Check, DecIn, Dec][(i + k) % 3]), End, len, End, nb);
                            }
                        }
                        b[i] = s[i];
                    }
                }
            }
        }
        "pairs" => {
            // every pair of positions x every pair of character classes
            let lens: &[usize] = if t { &[24, 44, 64, 76, 108] } else { &[24, 76] };
            let cls = c.classes(!t);
            for &len0 in lens {
                let nb = len0 * gi / go;
                for v in 0..c.dec_variants() {
                    let s = canonical(c, v, nb, 2);
                    let len = s.len();
                    for i in 0..len {
                        if !x.mine() {
                            continue;
                        }
                        x.put(End, &s);
                        let b = x.src_buf(End, len);
                        for j in i + 1..len {
                            for &p in &cls {
                                b[i] = p;
                                for (k, &q) in cls.iter().enumerate() {
                                    b[j] = q;
                                    if t {
                                        dec_all(c, v, x, End, len, nb);
                                    } else {
                                        x.run(c.op(v, DEC_OPS[(i + j + k) % 3]), End, len, End, nb);
                                        if k % 3 == 0 {
                                            x.run(c.op(v, DEC_OPS[(i + j + k + 1) % 3]), End, len, End, nb);
                                        }
                                    }
                                }
                            }
                            b[j] = s[j];
                        }
                        b[i] = s[i];
                    }
                }
            }
            x.sample(format!("every position pair x {}^2 character classes, text lengths {:?}", cls.len(), lens));
        }
        "multi" => {
            let bad: &[&[u8]] = match c {
                C64 => &[b"!", b"\x80", b"=", b"\xff"],
                C32 => &[b"!", b"\x80", b"a", b"\xff"],
                CHex => &[b"g", b"\x80", b"@", b"\xff"],
            };
            let nv = c.dec_variants() as usize;
            multi(
                x,
                1,
                &[1032, 1040, 2112, 2120, 4200, 8328, 16520],
                32,
                &|b, k| {
                    let len = b.len();
                    // whole groups: no padding
                    b.copy_from_slice(&canonical(c, (k % nv) as u8, len / go * gi, 2));
                },
                bad,
                &|x, b, v, k| x.run(c.op((v % nv) as u8, DEC_OPS[k % 3]), End, b.len(), End, b.len() / go * gi),
            );
        }
        "pairs256" => {
            // adjacent and block-distance pairs, all 256^2 values
            let len0 = if c == CHex { 64 } else { 72 };
            let nb = len0 * gi / go;
            for v in 0..c.dec_variants().min(2) {
                let s = canonical(c, v, nb, 2);
                let len = s.len();
                for i in 0..len {
                    for d in [1usize, 2, 4, 8, 16, 32] {
                        if !t && d != 1 && d != 16 {
                            continue;
                        }
                        let j = i + d;
                        if j >= len || !x.mine() {
                            continue;
                        }
                        x.put(End, &s);
                        let b = x.src_buf(End, len);
                        for p in 0..=255u8 {
                            if !t && p % 5 != (i % 5) as u8 {
                                continue;
                            }
                            b[i] = p;
                            for q in 0..=255u8 {
                                b[j] = q;
                                x.run(c.op(v, DEC_OPS[(p as usize + q as usize) % 3]), End, len, End, nb);
                            }
                        }
                    }
                }
            }
        }
        "allpairs" => {
            // all 256^2 values of every pair of characters of a text of two to four blocks and a tail
            let len0 = 72;
            let nb = len0 * gi / go;
            let nv = c.dec_variants().min(2);
            for i in 0..len0 {
                for j in i + 1..len0 {
                    if !x.mine() {
                        continue;
                    }
                    for v in 0..nv {
                        if !t && v as usize != (i + j) % nv as usize {
                            continue;
                        }
                        let s = canonical(c, v, nb, 2);
                        let len = s.len();
                        if j >= len {
                            continue;
                        }
                        x.put(End, &s);
                        let b = x.src_buf(End, len);
                        for w in 0..65536usize {
                            (b[i], b[j]) = (w as u8, (w >> 8) as u8);
                            x.run(c.op(v, [Dec, DecIn][(w / 7 + i) % 2]), End, len, End, nb);
                            x.run(c.op(v, Check), End, len, End, nb);
                        }
                    }
                }
            }
            x.sample(format!("all 2^16 values of every pair of characters of a text of {len0}"));
        }
        "short" => {
            // all texts up to a length over a small alphabet (padding, trailing bits, foreign characters)
            let (al, max): (&[u8], usize) = match (c, t) {
                (C64, false) => (b"AB/=!-", 7),
                (C64, true) => (b"AB/=!-", 9),
                (C32, false) => (b"AB7=a", 8),
                (C32, true) => (b"AB7=a", 10),
                (CHex, false) => (b"0Ffg:", 8),
                (CHex, true) => (b"0Ffg:", 10),
            };
            let k = al.len();
            for len in 0..=max {
                let total = k.pow(len as u32);
                for first in 0..total {
                    if (first / 4096 + len) % x.nshards != x.shard {
                        continue;
                    }
                    let b = x.src_buf(End, len);
                    let mut r = first;
                    for i in 0..len {
                        b[i] = al[r % k];
                        r /= k;
                    }
                    for v in 0..c.dec_variants() {
                        dec_all(c, v, x, End, len, len);
                    }
                }
            }
            x.sample(format!("all texts of length 0..={max} over {:?}", String::from_utf8_lossy(al)));
            // all texts of 2 symbols (256^2), and of 3 over the full class alphabet
            let cls = c.classes(false);
            for p in 0..=255u8 {
                if !x.mine() {
                    continue;
                }
                for q in 0..=255u8 {
                    let b = x.src_buf(End, 2);
                    b[0] = p;
                    b[1] = q;
                    for v in 0..c.dec_variants() {
                        dec_all(c, v, x, End, 2, 2);
                    }
                }
                for &q in &cls {
                    for &r in &cls {
                        let b = x.src_buf(End, 3);
                        b[0] = p;
                        b[1] = q;
                        b[2] = r;
                        for v in 0..c.dec_variants() {
                            dec_all(c, v, x, End, 3, 3);
                        }
                        for &w in &cls {
                            let b = x.src_buf(End, 4);
                            b[0] = p;
                            b[1] = q;
                            b[2] = r;
                            b[3] = w;
                            for v in 0..c.dec_variants() {
                                dec_all(c, v, x, End, 4, 4);
                            }
                        }
                    }
                }
            }
        }
        "tail" => {
            // endings of texts of every length: truncation, padding added or removed, last symbols altered
            let max = if t { 600 } else { 300 };
            let cls = c.classes(false);
            for nb in 0..=max {
                if !x.mine() {
                    continue;
                }
                for v in 0..c.dec_variants() {
                    let s = canonical(c, v, nb, 0);
                    let body: Vec<u8> = s.iter().copied().filter(|&b| b != b'=').collect();
                    for cut in 0..=go.min(body.len()) {
                        for pads in 0..=go + 1 {
                            let mut u = body[..body.len() - cut].to_vec();
                            u.extend(std::iter::repeat(b'=').take(pads));
                            x.put(End, &u);
                            dec_all(c, v, x, End, u.len(), nb + 1);
                            x.run(c.op(v, DecLen), End, u.len(), End, nb + 1);
                        }
                    }
                    // each of the last `go` symbols over the class alphabet, last symbol over all bytes
                    let len = s.len();
                    x.put(End, &s);
                    let b = x.src_buf(End, len);
                    for i in len.saturating_sub(go)..len {
                        for &q in &cls {
                            b[i] = q;
                            dec_all(c, v, x, End, len, nb);
                        }
                        b[i] = s[i];
                    }
                    if let Some(i) = s.iter().rposition(|&b| b != b'=') {
                        for q in 0..=255u8 {
                            b[i] = q;
                            dec_all(c, v, x, End, len, nb);
                        }
                    }
                    // one extra symbol
                    for &q in &cls {
                        let mut u = s.clone();
                        u.push(q);
                        x.put(End, &u);
                        dec_all(c, v, x, End, u.len(), nb + 1);
                    }
                }
            }
        }
        "groups" => dec_groups(c, x),
        "every" => {
            // one bad character at every position of long texts, at many positions of very long ones
            let bad: &[u8] = match c {
                C64 => b"=\x80!",
                C32 => b"=\x80a",
                CHex => b"\x80g@",
            };
            let all = long_lengths(t);
            for &len0 in all.iter().chain(&VERY_LONG) {
                let every = all.contains(&len0);
                let nb = len0 * gi / go;
                let v = (len0 % c.dec_variants() as usize) as u8;
                let s = canonical(c, v, nb, 2);
                let len = s.len();
                let at: Vec<usize> = if every { (0..len).collect() } else { sparse(len, t) };
                for chunk in at.chunks(512) {
                    if !x.mine() {
                        continue;
                    }
                    x.put(End, &s);
                    let b = x.src_buf(End, len);
                    for &i in chunk {
                        for (k, &f) in DEC_OPS.iter().enumerate() {
                            if !t && !every && f != DEC_OPS[(i + i / 64) % 3] {
                                continue;
                            }
                            b[i] = bad[(i / 3 + k) % 3];
                            x.run(c.op(v, f), End, len, End, nb);
                        }
                        b[i] = s[i];
                    }
                }
            }
            x.sample(format!("a bad character at every position of texts of {all:?} characters, at many positions of {VERY_LONG:?}"));
        }
        "windows" => {
            let max = if t { 23 } else { 20 };
            let r = if t { 40 } else { 24 };
            for len0 in window_lengths(9, max, r) {
                if len0 > (1 << 16) && !t && len0 % 7 != 0 && len0 % 4 != 3 {
                    continue;
                }
                if !x.mine() {
                    continue;
                }
                let nb = len0 * gi / go;
                let v = (len0 % c.dec_variants() as usize) as u8;
                let s = canonical(c, v, nb, 2);
                let len = s.len();
                x.put(End, &s);
                dec_all(c, v, x, End, len, nb);
                let b = x.src_buf(End, len);
                for i in [0, 1, len / 3, len / 2, len - 40, len - 33, len - 17, len - 9, len - 5, len - 1] {
                    let old = b[i];
                    b[i] = 0x80;
                    let f = DEC_OPS[i % 3];
                    x.run(c.op(v, f), End, len, End, nb);
                    b[i] = old;
                }
            }
        }
        "align" => {
            let lens: Vec<usize> = (0..=120).chain([191, 192, 193]).collect();
            for (so, d_o, cross) in placements(1) {
                if !x.mine() {
                    continue;
                }
                {
                    for &nb in &lens {
                        if !t && !cross && (so * 7 + d_o * 3 + nb) % 3 != 0 {
                            continue;
                        }
                        let v = ((so + d_o + nb) % c.dec_variants() as usize) as u8;
                        let s = canonical(c, v, nb, 0);
                        x.put(At(so), &s);
                        for f in DEC_OPS {
                            x.run(c.op(v, f), At(so), s.len(), At(d_o), nb);
                        }
                    }
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}

fn dec_groups(c: Codec, x: &mut X) {
    let t = x.thorough;
    match c {
        C64 => {
            // all 64^4 symbol quadruples in every lane
            for shift in 0..8usize {
                for ab in 0..4096usize / 16 {
                    if !t && shift % 2 == 1 && ab % 4 != 0 {
                        continue;
                    }
                    if !x.mine() {
                        continue;
                    }
                    for v in 0..2u8 {
                        let set = crate::refm::b64_set(v).0;
                        let n = 16 * 4096;
                        let len = (n + shift) * 4;
                        let b = x.src_buf(End, len);
                        b.fill(b'Q');
                        for k in 0..n {
                            let q = ab * n + k;
                            let o = (shift + k) * 4;
                            b[o] = set[q >> 18];
                            b[o + 1] = set[q >> 12 & 63];
                            b[o + 2] = set[q >> 6 & 63];
                            b[o + 3] = set[q & 63];
                        }
                        let nb = (n + shift) * 3;
                        x.run(c.op(v, Dec), End, len, End, nb);
                        if shift == 0 {
                            x.run(c.op(v, DecIn), End, len, End, nb);
                            x.run(c.op(v, Check), End, len, End, nb);
                        }
                        x.group("4-symbol groups decoded", n as u64);
                    }
                }
            }
            x.sample("all 64^4 symbol groups per lane, both alphabets".into());
        }
        C32 => {
            // all values of every pair of symbols of an 8-symbol group, in every lane, 3 backgrounds
            for shift in 0..4usize {
                for i in 0..8usize {
                    for j in i + 1..8 {
                        if !x.mine() {
                            continue;
                        }
                        for v in 0..2u8 {
                            let set = crate::refm::b32_set(v).0;
                            for bg in [0usize, 31, 21] {
                                let n = 1024;
                                let len = (n + shift) * 8;
                                let b = x.src_buf(End, len);
                                b.fill(set[bg]);
                                for k in 0..n {
                                    let o = (shift + k) * 8;
                                    b[o + i] = set[k >> 5];
                                    b[o + j] = set[k & 31];
                                }
                                let nb = (n + shift) * 5;
                                x.run(c.op(v, Dec), End, len, End, nb);
                                x.run(c.op(v, DecIn), End, len, End, nb);
                                x.run(c.op(v, Check), End, len, End, nb);
                                x.group("8-symbol groups decoded", n as u64);
                            }
                        }
                    }
                }
            }
            // all values of 4 adjacent symbols
            for i in 0..5usize {
                for a in 0..32usize {
                    if !x.mine() {
                        continue;
                    }
                    for v in 0..2u8 {
                        let set = crate::refm::b32_set(v).0;
                        let n = 32768;
                        let len = n * 8;
                        let b = x.src_buf(End, len);
                        b.fill(set[13]);
                        for k in 0..n {
                            let o = k * 8;
                            b[o + i] = set[a];
                            b[o + i + 1] = set[k >> 10];
                            b[o + i + 2] = set[k >> 5 & 31];
                            b[o + i + 3] = set[k & 31];
                        }
                        x.run(c.op(v, Dec), End, len, End, n * 5);
                        x.group("8-symbol groups decoded", n as u64);
                    }
                }
            }
            x.sample("all values of every symbol pair and of 4 adjacent symbols of an 8-symbol group".into());
        }
        CHex => {
            // all 22^2 digit pairs next to all 22^2 digit pairs, at every lane of a 64-character block
            let digits: &[u8] = b"0123456789abcdefABCDEF";
            for i in 0..32usize {
                for j in i + 1..32 {
                    if !t && j != i + 1 && j != i + 16 && i % 8 != 3 {
                        continue;
                    }
                    if !x.mine() {
                        continue;
                    }
                    let n = 22 * 22 * 22 * 22 / 22;
                    for last in 0..22usize {
                        if !t && last % 7 != i % 7 {
                            continue;
                        }
                        let len = n * 64;
                        let b = x.src_buf(End, len);
                        b.fill(b'c');
                        for k in 0..n {
                            let o = k * 64;
                            b[o + 2 * i] = digits[k % 22];
                            b[o + 2 * i + 1] = digits[k / 22 % 22];
                            b[o + 2 * j] = digits[k / 484 % 22];
                            b[o + 2 * j + 1] = digits[last];
                        }
                        x.run(c.op(0, Dec), End, len, End, len / 2);
                        x.group("64-character blocks decoded", n as u64);
                    }
                }
            }
            x.sample("digit quadruples at pairs of byte lanes of a 64-character block".into());
        }
    }
}
