//! C13 (no access outside the buffers) and C14 (all entry points agree).
use crate::codec::fill_pat;
use crate::env::{self, Place::*};
use crate::explore::{Fill, X};
use crate::ops::{self, *};
use crate::uni::U32B;
use std::sync::atomic::Ordering::Relaxed;

/// Inputs of exactly `n` bytes for `op`: valid and invalid contents that take different paths.
pub fn contents(op: Op, n: usize, rich: bool) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = vec![];
    let mut text = |base: Vec<u8>, bad: &[u8], r: &mut Vec<Vec<u8>>| {
        r.push(base.clone());
        let mut pos: Vec<usize> = vec![0, n / 2, n.saturating_sub(1), n.saturating_sub(2)];
        if rich {
            pos.extend([1, 7, 8, 15, 16, 31, 32, 33, n.saturating_sub(9), n.saturating_sub(17), n.saturating_sub(33)]);
        }
        pos.retain(|&p| p < n);
        pos.sort();
        pos.dedup();
        for (k, &p) in pos.iter().enumerate() {
            let mut v = base.clone();
            v[p] = bad[k % bad.len()];
            r.push(v);
        }
    };
    match op {
        Op::B64(v, f) if !f.is_enc() => {
            let mut s = vec![];
            let mut raw = vec![0; n];
            fill_pat(&mut raw, 2);
            ops::enc(op, &raw, &mut s);
            s.truncate(n);
            // make the trailing bits canonical
            if n > 0 {
                s[n - 1] = b'A';
            }
            text(s.clone(), b"=!\x80 ", &mut r);
            if v < 2 && n >= 4 {
                s[n - 1] = b'=';
                s[n - 2] = b'Q';
                r.push(s.clone());
                s[n - 2] = b'=';
                s[n - 3] = b'Q';
                r.push(s);
            }
            r.push(vec![b'='; n]);
        }
        Op::B32(v, f) if !f.is_enc() => {
            let mut s = vec![];
            let mut raw = vec![0; n];
            fill_pat(&mut raw, 2);
            ops::enc(op, &raw, &mut s);
            s.truncate(n);
            if n > 0 {
                s[n - 1] = if v % 2 == 0 { b'A' } else { b'0' };
            }
            text(s.clone(), b"=!\x80 ", &mut r);
            if v < 2 && n >= 8 {
                for k in [1usize, 3, 4, 6, 2, 7] {
                    let mut u = s.clone();
                    for i in 0..k {
                        u[n - 1 - i] = b'=';
                    }
                    u[n - 1 - k] = if v % 2 == 0 { b'A' } else { b'0' };
                    r.push(u);
                }
            }
            r.push(vec![b'='; n]);
        }
        Op::Hex(_, f) if !f.is_enc() => {
            let s: Vec<u8> = (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 5 + n) % 22]).collect();
            text(s, b"g\x80:@", &mut r);
        }
        Op::HexRawCheck | Op::HexRawDec | Op::HexRawDecIn => {
            let s: Vec<u8> = (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 5 + n) % 22]).collect();
            text(s, b"g\x80:@", &mut r);
        }
        Op::Forg | Op::ForgIn | Op::ForgVec => {
            let s: Vec<u8> = (0..n).map(|i| b"QkJzWv09"[(i * 3 + n) % 8]).collect();
            text(s.clone(), b" \n!=", &mut r);
            text(s.clone(), b"=\t\x80\r", &mut r);
            let mut u = s;
            for i in (0..n).step_by(3) {
                u[i] = b' ';
            }
            r.push(u);
            r.push(vec![b' '; n]);
            r.push(vec![b'='; n]);
        }
        Op::UuidParse | Op::UuidParseSimple | Op::UuidParseHyph | Op::UuidExtParse | Op::UuidExtParseSimple | Op::UuidExtParseHyph => {
            for full in ["67e5504410b1426f9247bb680e5fe0c8", "67e55044-10b1-426f-9247-bb680e5fe0c8", "{67e55044-10b1-426f-9247-bb680e5fe0c8}", "urn:uuid:67e55044-10b1-426f-9247-bb680e5fe0c8"] {
                let mut s = full.as_bytes().to_vec();
                s.resize(n, b'0');
                text(s, b"g\x80-{", &mut r);
            }
        }
        Op::IsAscii | Op::FromAscii => {
            let s: Vec<u8> = (0..n).map(|i| i as u8 & 0x7f).collect();
            text(s, b"\x80\xff", &mut r);
        }
        Op::IsUtf32 => {
            let mut s = vec![0u8; n];
            for (i, c) in s.chunks_exact_mut(4).enumerate() {
                c.copy_from_slice(&(0x41 + i as u32 * 0x333).to_le_bytes());
            }
            r.push(s.clone());
            for (k, p) in [0, n / 8 * 4, n.saturating_sub(4)].into_iter().enumerate() {
                if p + 4 <= n {
                    let mut v = s.clone();
                    v[p..p + 4].copy_from_slice(&U32B[10 + k * 7].to_le_bytes());
                    r.push(v);
                }
            }
        }
        _ => {
            for p in if rich { vec![2usize, 1, 3] } else { vec![2] } {
                let mut v = vec![0; n];
                fill_pat(&mut v, p);
                r.push(v);
            }
        }
    }
    r
}

fn op_lengths(op: Op, max: usize) -> Vec<usize> {
    if op.fixed16() {
        return vec![16];
    }
    (0..=max).filter(|n| n % op.unit() == 0).collect()
}

/// destination sizes around the required size
fn dst_sizes(op: Op, input: &[u8], x: &mut X, dense: bool) -> Vec<usize> {
    let n = input.len();
    if !op.has_dst() || op.dst_fixed() {
        return vec![n];
    }
    let mut out = std::mem::take(&mut x.out);
    let mut tmp = std::mem::take(&mut x.tmp);
    let m = match ops::expect(op, input, usize::MAX, &mut out, &mut tmp) {
        Exp::Bytes => out.len(),
        _ => n,
    };
    x.out = out;
    x.tmp = tmp;
    let mut v: Vec<usize> = if dense { (0..=m.max(n) + 3).collect() } else { vec![0, 1, m / 2, m.saturating_sub(2), m.saturating_sub(1), m, m + 1, m + 2, m + 17, m + 64, n.saturating_sub(1), n, n + 1] };
    let a = op.align();
    for k in v.iter_mut() {
        *k = *k / a * a;
    }
    v.sort();
    v.dedup();
    v
}

pub fn mem_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "guard" => {
            let max = if t { 330 } else { 180 };
            for op in Op::all() {
                if op.is_heap() {
                    continue;
                }
                for n in op_lengths(op, max) {
                    if !x.mine() {
                        continue;
                    }
                    let dense = n <= 24 || (t && n < 80);
                    for s in contents(op, n, true) {
                        let sizes = dst_sizes(op, &s, x, dense);
                        for sp in [Start, End] {
                            x.put(sp, &s);
                            for &dl in &sizes {
                                for dp in [Start, End] {
                                    x.run(op, sp, n, dp, dl);
                                }
                            }
                        }
                    }
                }
            }
            x.sample(format!("every operation x input length 0..={max} x valid/invalid contents x source and destination flush against an inaccessible page on either side x destination sizes around the required one"));
        }
        "canary" => {
            let max = if t { 200 } else { 110 };
            x.canary = true;
            for op in Op::all() {
                if op.is_heap() {
                    continue;
                }
                for n in op_lengths(op, max) {
                    if !x.mine() {
                        continue;
                    }
                    for (ci, s) in contents(op, n, false).into_iter().enumerate() {
                        let sizes = dst_sizes(op, &s, x, n <= 12);
                        for &dl in &sizes {
                            let offs: &[usize] = if t { &[0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63] } else { &[0, 1, 8, 15, 31] };
                            for &o in offs {
                                let so = ((o * 7 + ci + dl) % 64) / op.align() * op.align();
                                let d_o = o / op.align() * op.align();
                                x.put(At(so), &s);
                                x.run(op, At(so), n, At(d_o), dl);
                            }
                        }
                    }
                }
            }
            x.canary = false;
            x.sample("128 guard bytes on each side of the destination, at misaligned offsets".into());
        }
        "heap" => {
            if !cfg!(feature = "alloc") {
                return;
            }
            let max = if t { 400 } else { 200 };
            x.guarded_heap = true;
            for mode in 0..2 {
                env::EF_MODE.store(mode, Relaxed);
                for op in Op::all() {
                    if !op.is_heap() {
                        continue;
                    }
                    for n in op_lengths(op, max) {
                        if !x.mine() {
                            continue;
                        }
                        for s in contents(op, n, true) {
                            let live = env::EF_LIVE.load(Relaxed);
                            for pl in [Start, End] {
                                x.put(pl, &s);
                                x.run(op, pl, n, pl, n);
                            }
                            if env::EF_LIVE.load(Relaxed) != live {
                                env::violation("memory allocated during the call is still allocated after its result was dropped");
                            }
                        }
                    }
                }
            }
            let n = env::EF_ALLOCS.load(Relaxed) as u64;
            x.group("guarded heap blocks", n);
            x.sample("allocating operations on a heap whose blocks touch an inaccessible page (after, then before)".into());
        }
        // for the build with AddressSanitizer: buffers in the middle of a page and at its end, their surroundings
        // accessible but poisoned
        "fence" => {
            let max = if t { 400 } else { 200 };
            let long: Vec<usize> = if t { crate::codec::window_lengths(8, 16, 36) } else { crate::codec::window_lengths(8, 13, 20) };
            for op in Op::all() {
                let mut lens = op_lengths(op, max);
                if !op.fixed16() {
                    lens.extend(long.iter().filter(|&&n| n > max && n % op.unit() == 0));
                }
                for n in lens {
                    if !x.mine() {
                        continue;
                    }
                    for (ci, s) in contents(op, n, n < 64).into_iter().enumerate() {
                        if n > max && ci > 2 && (ci + n) % 3 != 0 && !t {
                            continue;
                        }
                        let sizes = if op.is_heap() || !op.has_dst() || op.dst_fixed() { vec![n] } else { dst_sizes(op, &s, x, n <= 12) };
                        let m = x.out.len();
                        for dl in sizes {
                            if n > max && dl != m && dl + op.align() != m && dl != n {
                                continue;
                            }
                            // eight before the end of a page, then middle of a page
                            let k = op.align();
                            let last = (4096 - (n % 4096) + 4096 - 8 - (ci + dl) % 3 * 16) % 4096 / 8 * 8;
                            for (so, d) in [(0, 0), (8 * (1 + (n + ci) % 7), 8 * (1 + (dl + ci) % 7)), (last, 2048), (1024 + (ci % 4 + 1) * k, 1024 + (ci % 3 + 1) * k)] {
                                if so != 0 && n > max && !t && (ci + so) % 2 == 1 {
                                    continue;
                                }
                                x.put(At(so), &s);
                                x.run(op, At(so), n, At(d), dl);
                            }
                        }
                    }
                }
            }
            x.sample("every operation with accessible but poisoned surroundings (AddressSanitizer), middle and end of a page".into());
        }
        "big" => {
            // long inputs, buffers flush against inaccessible pages
            for op in Op::all() {
                if op.is_heap() || op.fixed16() {
                    continue;
                }
                if let Op::B64(_, f) | Op::B32(_, f) | Op::Hex(_, f) = op {
                    if matches!(f, EncLen | EstLen) {
                        continue;
                    }
                }
                let mut lens: Vec<usize> = if t { (400..1200).chain(4000..4200).collect() } else { (500..530).chain(1015..1035).chain(2040..2056).chain(4090..4102).collect() };
                lens.extend(crate::codec::window_lengths(13, 16, if t { 40 } else { 4 }));
                lens.extend(crate::codec::window_lengths(18, 20, if t { 9 } else { 0 }));
                for n in lens {
                    if n % op.unit() != 0 || !x.mine() {
                        continue;
                    }
                    for s in contents(op, n, false) {
                        let m = *dst_sizes(op, &s, x, false).get(5).unwrap_or(&n);
                        let need = dst_sizes(op, &s, x, false);
                        let dl = if op.has_dst() { need.into_iter().find(|&k| k >= m).unwrap_or(n) } else { n };
                        x.put(End, &s);
                        x.run(op, End, n, End, dl);
                        x.put(Start, &s);
                        x.run(op, Start, n, Start, dl);
                    }
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}

/// The entry points of one property that do not allocate.
fn prop_ops(prop: &str) -> Vec<Op> {
    Op::all()
        .into_iter()
        .filter(|o| match (prop, *o) {
            ("C01", Op::B64(_, f)) | ("C04", Op::B32(_, f)) => f == Enc,
            ("C06", Op::Hex(_, f)) => f == Enc,
            ("C06", Op::HexRawEnc(_)) => true,
            ("C02", Op::B64(_, f)) | ("C05", Op::B32(_, f)) | ("C07", Op::Hex(_, f)) => matches!(f, Check | Dec | DecIn),
            ("C07", Op::HexRawCheck | Op::HexRawDec | Op::HexRawDecIn) => true,
            ("C03", Op::Forg | Op::ForgIn) => true,
            ("C10", Op::IsAscii | Op::FromAscii) => true,
            ("C11", Op::IsUtf32) => true,
            ("C12", Op::Swap16 | Op::Swap16In | Op::Swap32 | Op::Swap32In) => true,
            ("C08", Op::UuidParse | Op::UuidParseSimple | Op::UuidParseHyph) => true,
            ("C09", Op::UuidFmtSimple(_) | Op::UuidFmtHyph(_)) => true,
            ("C14", o) => o.has_dst() && !o.is_heap(),
            _ => false,
        })
        .collect()
}

/// Source and destination in one buffer, next to each other, in both orders.
pub fn adjacent(x: &mut X, prop: &str) {
    let t = x.thorough;
    for op in prop_ops(prop) {
        if !op.has_dst() || op.in_place() {
            continue;
        }
        let mut lens = op_lengths(op, if t { 330 } else { 150 });
        if !op.fixed16() {
            lens.extend(if t { vec![400, 520, 768, 1024, 1104, 2048, 4096, 4200, 16_384, 70_000] } else { vec![520, 1024, 1104, 4096, 4200, 20_000] }.into_iter().filter(|n| n % op.unit() == 0));
        }
        for n in lens {
            if !x.mine() {
                continue;
            }
            for (ci, s) in contents(op, n, false).into_iter().enumerate() {
                if ci > 2 && (ci + n) % 3 != 0 {
                    continue;
                }
                x.put(End, &s);
                let mut sizes = dst_sizes(op, &s, x, false);
                let (mut out, mut tmp) = (std::mem::take(&mut x.out), std::mem::take(&mut x.tmp));
                let m = if ops::expect(op, &s, usize::MAX, &mut out, &mut tmp) == Exp::Bytes { out.len() } else { n };
                (x.out, x.tmp) = (out, tmp);
                sizes.retain(|&d| d == m || d == n || d == m + 64);
                sizes.push(m);
                sizes.sort();
                sizes.dedup();
                for dl in sizes {
                    for gap in [0isize, 1, 2, 4, 7, 8, 15, 16, 17, 31, 32, 33, 48, 64, 100, 256] {
                        if gap as usize % op.align() != 0 || n > 2000 && gap > 40 {
                            continue;
                        }
                        let a = op.align().max(op.unit() % 16).max(1);
                        // the source behind the destination, and before it
                        x.near = Some(gap);
                        let o = (n + gap as usize) % 32 / a * a;
                        if op.dst_fixed() && (op.fixed_dst(n) + gap as usize) % op.align() != 0 || dl % op.align() != 0 {
                            continue;
                        }
                        x.run(op, End, n, At(o), dl);
                        x.near = Some(-1 - gap);
                        x.run(op, End, n, At(100_000 + o), dl);
                    }
                }
                x.near = None;
            }
        }
    }
    x.sample("source and destination in one buffer, next to each other or up to 256 bytes apart, in both orders".into());
}

/// Inputs that hardly change: one byte repeated but for one or two deviations that may cancel in a sum or an
/// exclusive or (code that recognises repeated blocks).
pub fn steady(x: &mut X, prop: &str) {
    let t = x.thorough;
    let lens: &[usize] = if t { &[96, 200, 328, 600, 1104, 2104, 4200, 9000] } else { &[96, 200, 328, 1104, 4200] };
    for op in prop_ops(prop) {
        // the units the input is made of, as values of an index
        let set: Option<&[u8]> = match op {
            Op::B64(v, f) if !f.is_enc() => Some(&crate::refm::b64_set(v).0[..]),
            Op::B32(v, f) if !f.is_enc() => Some(&crate::refm::b32_set(v).0[..]),
            Op::Hex(_, f) if !f.is_enc() => Some(b"0123456789abcdef"),
            Op::HexRawCheck | Op::HexRawDec | Op::HexRawDecIn => Some(b"0123456789ABCDEF"),
            Op::Forg | Op::ForgIn => Some(&crate::refm::b64_set(0).0[..]),
            _ => None,
        };
        let ascii = matches!(op, Op::IsAscii | Op::FromAscii);
        if op == Op::IsUtf32 || ascii {
            // other parts
            continue;
        }
        let modulus = set.map_or(256, |s| s.len());
        let sym = |i: usize| set.map_or(i as u8, |s| s[i % s.len()]);
        for (li, &n) in lens.iter().enumerate() {
            let n = n / 8 * 8;
            for base in [0usize, modulus / 3, modulus - 1] {
                let dl = match op {
                    Op::B64(_, f) | Op::B32(_, f) | Op::Hex(_, f) if f.is_enc() => ops::enc_len(op, n),
                    _ => n,
                };
                for p in 0..n {
                    if !t && n > 2000 && (p + base + li) % 3 != 0 {
                        continue;
                    }
                    if !x.mine() {
                        continue;
                    }
                    let (sp, dp) = if p % 2 == 0 { (End, End) } else { (Start, Start) };
                    let b = x.src_buf(sp, n);
                    b.fill(sym(base));
                    let b0 = sym(base);
                    for delta in [1usize, modulus / 2, modulus - 1] {
                        b[p] = sym((base ^ delta) % modulus);
                        x.run(op, sp, n, dp, dl);
                    }
                    for d in [1usize, 2, 4, 8, 16, 24, 32, 64] {
                        if p + d >= n {
                            break;
                        }
                        // the same bits flipped
                        b[p] = sym((base ^ 1) % modulus);
                        b[p + d] = b[p];
                        x.run(op, sp, n, dp, dl);
                        // one more, one less
                        b[p] = sym((base + 1) % modulus);
                        b[p + d] = sym((base + modulus - 1) % modulus);
                        x.run(op, sp, n, dp, dl);
                        b[p + d] = b0;
                    }
                    b[p] = b0;
                }
            }
        }
    }
    x.sample(format!("one byte repeated {lens:?} times with a deviation at every position, and with a second one 1..64 bytes later that cancels it in a sum or an exclusive or"));
}

/// Long buffers at every address modulo 64 (and a few that cross pages otherwise): the operations of one property.
pub fn align_long(x: &mut X, prop: &str) {
    let t = x.thorough;
    let ops = prop_ops(prop);
    assert!(!ops.is_empty());
    // length for a valid input
    let fit = |op: Op, n: usize| match op {
        Op::B64(0..=1, Check | Dec | DecIn) | Op::Forg | Op::ForgIn => n / 4 * 4,
        Op::B32(0..=1, Check | Dec | DecIn) => n / 8 * 8,
        _ => n / 8 * 8 + if op.unit() == 1 && !matches!(op, Op::B64(_, Check | Dec | DecIn) | Op::B32(..)) { 6 } else { 0 },
    };
    let valid = |op: Op, n: usize| {
        let mut s = contents(op, n, false).swap_remove(0);
        if op == Op::IsUtf32 {
            for (i, c) in s.chunks_exact_mut(4).enumerate() {
                c.copy_from_slice(&((i as u32 * 0x333) % 0xd800).to_le_bytes());
            }
        }
        s
    };
    let room = |op: Op, s: &[u8], x: &mut X| {
        if !op.has_dst() || op.dst_fixed() {
            return s.len();
        }
        let (mut out, mut tmp) = (std::mem::take(&mut x.out), std::mem::take(&mut x.tmp));
        let m = match ops::expect(op, s, usize::MAX, &mut out, &mut tmp) {
            Exp::Bytes => out.len(),
            _ => s.len(),
        };
        (x.out, x.tmp) = (out, tmp);
        m
    };
    // every pair of offsets
    let sizes: &[(usize, usize)] = if t { &[(360, 1), (520, 1), (800, 1), (1100, 1), (1600, 1), (2100, 1), (4200, 1), (9000, 1), (20_000, 1), (70_000, 3), (300_000, 13), (1_100_000, 61), (4_400_000, 509)] } else { &[(360, 1), (520, 1), (1100, 1), (2100, 1), (4200, 1), (20_000, 3), (70_000, 13), (300_000, 61), (1_100_000, 251)] };
    for &(n, step) in sizes {
        for &op in &ops {
            let n = fit(op, n);
            let s = valid(op, n);
            let dl = room(op, &s, x);
            let mut k = 0;
            for (so, d, _) in crate::codec::placements(op.unit()) {
                // one buffer only: its offset counts once
                if (op.in_place() && so != 0) || (!op.in_place() && !op.has_dst() && d != so) {
                    continue;
                }
                k += 1;
                let only = op.in_place() || !op.has_dst();
                if !(only && n < 100_000) && (k + so) % step != 0 {
                    continue;
                }
                if !x.mine() {
                    continue;
                }
                x.put(At(so), &s);
                x.run(op, At(so), n, At(d), dl);
            }
        }
    }
    // every position of a damage near both ends, at every offset of the text
    let sizes: &[(usize, usize)] = if t { &[(360, 1), (520, 1), (1100, 1), (2100, 1), (4200, 1), (20_000, 1), (70_000, 7)] } else { &[(520, 1), (1100, 1), (4200, 1), (20_000, 7), (70_000, 67)] };
    for &(n, step) in sizes {
        for &op in &ops {
            let bad: &[u8] = match op {
                Op::B64(_, f) | Op::B32(_, f) | Op::Hex(_, f) if !f.is_enc() => b"!\x80=",
                Op::HexRawCheck | Op::HexRawDec | Op::HexRawDecIn => b"g\xff@",
                Op::Forg | Op::ForgIn => b" !\xff",
                Op::IsAscii | Op::FromAscii => b"\x80\xff\xc3",
                Op::IsUtf32 => b"\xd8\xdf\x80",
                _ => continue,
            };
            // a text with one blank more is accepted
            let n = fit(op, n) + matches!(op, Op::Forg | Op::ForgIn) as usize;
            let mut s = valid(op, n);
            let dl = room(op, &s, x);
            let u = op.unit();
            for so in (0..64).step_by(op.align()) {
                let d = (so * 5 + 17) % 64;
                for (k, p) in (0..160).chain(n - 96..n).step_by(u).enumerate() {
                    if (k + so) % step != 0 || !x.mine() {
                        continue;
                    }
                    // a surrogate, or a value above the last one
                    let q = if u == 4 { p + 1 + (k + so) % 2 * 2 } else { p };
                    let old = s[q];
                    s[q] = bad[(k + so / 3) % bad.len()];
                    let (sp, dp) = if op.in_place() { (At(0), At(so)) } else { (At(so), At(d)) };
                    x.put(sp, &s);
                    x.run(op, sp, n, dp, dl);
                    s[q] = old;
                }
            }
        }
    }
    x.sample("inputs of 520..1,100,000 bytes: all source and destination offsets modulo 64, a wrong unit at each position near both ends at every source offset".into());
}

pub fn agree_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "forms" => {
            let max = if t { 500 } else { 200 };
            for op in Op::all() {
                for n in op_lengths(op, max) {
                    if !x.mine() {
                        continue;
                    }
                    for s in contents(op, n, true) {
                        x.put(End, &s);
                        x.fill = Fill::Complement;
                        x.run(op, End, n, End, n * 2 + 16);
                        if op.is_heap() || !op.has_dst() {
                            continue;
                        }
                        for fill in [Fill::Zero, Fill::Ones] {
                            x.fill = fill;
                            let sizes = dst_sizes(op, &s, x, false);
                            for dl in sizes {
                                x.run(op, End, n, At((dl % 16) / op.align() * op.align()), dl);
                            }
                        }
                        x.fill = Fill::Complement;
                    }
                }
            }
            x.sample(format!("every entry point on the same inputs, lengths 0..={max}, destination contents 00/FF/complement, surplus 0..64"));
        }
        // long inputs on every entry point: in place, into surplus space, into fresh and into used memory
        "large" => {
            let mut lens = crate::codec::window_lengths(8, if t { 18 } else { 15 }, if t { 40 } else { 9 });
            lens.extend(crate::codec::window_lengths(16, 20, if t { 4 } else { 1 }));
            lens.extend([1000, 5000, 10_000, 50_000, 100_000]);
            lens.sort();
            lens.dedup();
            for op in Op::all() {
                if op.fixed16() {
                    continue;
                }
                for &n in &lens {
                    if n % op.unit() != 0 || !x.mine() {
                        continue;
                    }
                    let all = contents(op, n, n < 9000);
                    let k = all.len();
                    for (i, s) in all.into_iter().enumerate() {
                        // of the very long ones: the accepted text, one rejected late, the last special one
                        if !t && n > 5000 && i != 0 && i != k - 2 && i != (n / 3) % k {
                            continue;
                        }
                        x.put(End, &s);
                        x.run(op, End, n, End, n * 2 + 16 - 16 % op.align());
                        if op.has_dst() && !op.dst_fixed() {
                            let need = dst_sizes(op, &s, x, false);
                            let m = x.out.len();
                            for dl in need.into_iter().filter(|&d| d == m || d + op.align() == m) {
                                x.run(op, End, n, Start, dl);
                            }
                        }
                    }
                }
            }
            x.sample("every entry point on inputs around 2^k and 3*2^k up to 1 MiB, exact and surplus destinations".into());
        }
        "reuse" => {
            // destinations that hold what the call will write, but for one byte, or the input
            let max = if t { 330 } else { 140 };
            for op in Op::all() {
                if !op.has_dst() || op.is_heap() {
                    continue;
                }
                let mut lens = op_lengths(op, max);
                if !op.fixed16() {
                    lens.extend(if t { vec![1024, 1100, 2048, 4096, 5000, 65536] } else { vec![520, 1100, 4200] }.into_iter().filter(|n| n % op.unit() == 0));
                }
                for n in lens {
                    for s in contents(op, n, false) {
                        if !x.mine() {
                            continue;
                        }
                        let need = *dst_sizes(op, &s, x, false).last().unwrap();
                        let m = x.out.len();
                        x.put(End, &s);
                        x.fill = Fill::Input;
                        x.run(op, End, n, End, need);
                        x.fill = Fill::Twin;
                        x.run(op, End, n, End, need);
                        x.fill = Fill::Flip;
                        for k in 0..8 {
                            x.fill_pos = 1 << k;
                            x.run(op, End, n, End, need);
                        }
                        x.fill_pos = usize::MAX;
                        x.fill = Fill::Near;
                        x.run(op, End, n, End, need);
                        let (mut out, mut tmp) = (std::mem::take(&mut x.out), std::mem::take(&mut x.tmp));
                        let ok = ops::expect(op, &s, usize::MAX, &mut out, &mut tmp) == Exp::Bytes;
                        (x.out, x.tmp) = (out, tmp);
                        let m = if ok { m.max(x.out.len()) } else { 0 };
                        for i in (0..m).step_by(if m > 6000 { 251 } else { 1 }) {
                            x.fill_pos = i;
                            x.run(op, End, n, if i % 2 == 0 { End } else { Start }, if i % 3 == 0 { need } else { m });
                        }
                        x.fill_pos = usize::MAX;
                        x.fill = Fill::Complement;
                    }
                }
            }
            x.sample(format!("destinations that already hold the result but for one byte (every position), one bit of every byte, the case of the letters, or the input; lengths 0..={max} and 520..4200"));
        }
        "rooms" => {
            // every entry point on texts of 4 to 8192 characters with any byte at a few places, into destinations
            // from the exact size to many times the text
            let lens: &[usize] = if t { &[4, 8, 16, 24, 32, 40, 48, 64, 80, 96, 100, 128, 160, 256, 320, 512, 640, 1024, 2048, 4096, 8192, 16384, 65536] } else { &[4, 16, 32, 64, 128, 256, 512, 640, 1024, 2048, 4096, 8192] };
            for op in Op::all() {
                if op.fixed16() || op.name().contains("uuid") || (op.is_heap() && !cfg!(feature = "alloc")) {
                    continue;
                }
                for (li, &n) in lens.iter().enumerate() {
                    let n = match op {
                        Op::B64(v, f) if !f.is_enc() && v < 2 => n / 4 * 4,
                        Op::B32(v, f) if !f.is_enc() && v < 2 => (n + 7) / 8 * 8,
                        _ => n / op.unit() * op.unit(),
                    };
                    let Some(s) = contents(op, n, false).into_iter().next() else { continue };
                    let n = s.len();
                    let mut at = vec![0, 1, n / 3, n / 2 + 1, n - 7.min(n), n - 1];
                    at.retain(|&i| i < n);
                    at.dedup();
                    for (ai, &i) in at.iter().enumerate() {
                        if !x.mine() {
                            continue;
                        }
                        x.put(End, &s);
                        x.fill = if ai % 2 == 0 { Fill::Complement } else { Fill::Zero };
                        let mut rooms = vec![n];
                        if op.has_dst() && !op.is_heap() && !op.dst_fixed() {
                            let need = dst_sizes(op, &s, x, false);
                            rooms = vec![*need.iter().max().unwrap_or(&n), n, 2 * n, 3 * n, 4 * n, 8 * n + 16, n + 4096, 2 * n + 65536];
                            rooms.extend(need.into_iter().filter(|&d| d == x.out.len()));
                            rooms.iter_mut().for_each(|r| *r -= *r % op.align());
                            rooms.sort();
                            rooms.dedup();
                        }
                        let b = x.src_buf(End, n);
                        let old = b[i];
                        for (ri, &room) in rooms.iter().enumerate() {
                            for v in 0..=255u8 {
                                if !t && n > 1024 && (v as usize + ri + li) % 4 != 0 {
                                    continue;
                                }
                                b[i] = v;
                                x.run(op, End, n, End, room);
                            }
                            b[i] = old;
                        }
                        x.fill = Fill::Complement;
                    }
                }
            }
            x.sample(format!("every entry point on texts of {lens:?} characters, any byte at six places, destinations from exact to 2n + 64 KiB"));
        }
        "mutate" => {
            // every decode entry point on every single substitution of a class character
            let groups: [(&[u8], Vec<Op>); 4] = [
                (b"A/=-\n!\x80", [Dec, DecIn, Check, DecBox, DecVec, DecToVec, DecAppVec].iter().flat_map(|&f| (0..4).map(move |v| Op::B64(v, f))).chain([Op::Forg, Op::ForgIn, Op::ForgVec]).collect()),
                (b"A70=a!\x80", [Dec, DecIn, Check, DecBox, DecVec, DecToVec, DecAppVec].iter().flat_map(|&f| (0..4).map(move |v| Op::B32(v, f))).collect()),
                (b"0Fg:@/\x80", [Dec, DecIn, Check, DecBox, DecVec, DecToVec, DecAppVec].iter().map(|&f| Op::Hex(0, f)).chain([Op::HexRawCheck, Op::HexRawDec, Op::HexRawDecIn]).collect()),
                (b"0Fg-{}:", vec![Op::UuidParse, Op::UuidParseSimple, Op::UuidParseHyph, Op::UuidExtParse, Op::UuidExtParseSimple, Op::UuidExtParseHyph]),
            ];
            for (gi, (cls, ops_)) in groups.iter().enumerate() {
                for n in 0..=if t { 160usize } else { 100 } {
                    if !x.mine() {
                        continue;
                    }
                    let bases: Vec<Vec<u8>> = match gi {
                        0 => (0..4).map(|v| crate::codec::canonical(crate::codec::C64, v, n * 3 / 4, 2)).collect(),
                        1 => (0..4).map(|v| crate::codec::canonical(crate::codec::C32, v, n * 5 / 8, 2)).collect(),
                        2 => vec![crate::codec::canonical(crate::codec::CHex, 0, n / 2, 2)],
                        _ => contents(Op::UuidParse, n, false).into_iter().step_by(5).collect(),
                    };
                    for s in bases {
                        for i in 0..s.len().max(1) {
                            for (k, &c) in cls.iter().enumerate() {
                                let mut u = s.clone();
                                if !u.is_empty() {
                                    u[i] = c;
                                }
                                x.put(End, &u);
                                for (oi, &o) in ops_.iter().enumerate() {
                                    if o.is_heap() && (!cfg!(feature = "alloc") || (!t && (i + k + oi) % 3 != 0)) {
                                        continue;
                                    }
                                    x.run(o, End, u.len(), End, u.len() + 1);
                                }
                            }
                        }
                    }
                }
            }
            x.sample("every decoding entry point on every single-character substitution".into());
        }
        _ => panic!("unknown part {part}"),
    }
}
