//! C03: forgiving base64 decoding against the WHATWG algorithm.
use crate::codec::{canonical, long_lengths, multi, placements, sparse, window_lengths, C64, VERY_LONG};
use crate::env::Place::{self, *};
use crate::explore::X;
use crate::ops::*;

const WS: [u8; 5] = [b' ', b'\t', b'\n', 0x0c, b'\r'];
/// characters next to or sharing bits with whitespace, which are not whitespace
const NEAR: [u8; 16] = [0x0b, 0x08, 0x0e, 0x1f, 0x21, 0x00, 0x89, 0x8a, 0x8c, 0x8d, 0xa0, 0x85, 0x29, 0x0f, 0x60, 0xff];

#[inline]
fn all(x: &mut X, pl: Place, len: usize) {
    x.run(Op::Forg, pl, len, pl, len);
    x.run(Op::ForgIn, pl, len, pl, len);
    if cfg!(feature = "alloc") {
        x.run(Op::ForgVec, pl, len, pl, len);
    }
}
#[inline]
fn some(x: &mut X, pl: Place, len: usize, k: usize) {
    match k % 3 {
        0 => x.run(Op::Forg, pl, len, pl, len),
        1 => x.run(Op::ForgIn, pl, len, pl, len),
        _ => {
            if cfg!(feature = "alloc") {
                x.run(Op::ForgVec, pl, len, pl, len)
            } else {
                x.run(Op::Forg, pl, len, pl, len + 1)
            }
        }
    }
}

pub fn parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "short" => {
            let (al, max): (&[u8], usize) = if t { (b"AB/= \n-", 8) } else { (b"AB/= \n-", 7) };
            let k = al.len();
            for len in 0..=max {
                for first in 0..k.pow(len as u32) {
                    if (first / 4096 + len) % x.nshards != x.shard {
                        continue;
                    }
                    let b = x.src_buf(End, len);
                    let mut r = first;
                    for c in b.iter_mut() {
                        *c = al[r % k];
                        r /= k;
                    }
                    all(x, End, len);
                }
            }
            x.sample(format!("all texts of length 0..={max} over {:?}", String::from_utf8_lossy(al)));
            // every pair of bytes after a valid prefix
            for pre in [0usize, 1, 2, 3, 14, 15, 30, 31] {
                for p in 0..=255u8 {
                    if !x.mine() {
                        continue;
                    }
                    let b = x.src_buf(End, pre + 2);
                    b.fill(b'Q');
                    b[pre] = p;
                    for q in 0..=255u8 {
                        b[pre + 1] = q;
                        all(x, End, pre + 2);
                    }
                }
            }
        }
        "lengths" => {
            let max = if t { 1500 } else { 420 };
            for nb in 0..=max {
                if !x.mine() {
                    continue;
                }
                for v in 0..4u8 {
                    for p in [0usize, 2, 3, 6] {
                        let mut s = canonical(C64, v, nb, p);
                        for pl in [Start, End] {
                            x.put(pl, &s);
                            all(x, pl, s.len());
                        }
                        // non-zero trailing bits are ignored
                        let n = s.iter().position(|&c| c == b'=').unwrap_or(s.len());
                        if n > 0 {
                            let old = s[n - 1];
                            for c in [b'B', b'/', b'_', b'9', b' ', b'!'] {
                                s[n - 1] = c;
                                x.put(End, &s);
                                all(x, End, s.len());
                            }
                            s[n - 1] = old;
                        }
                    }
                }
            }
            x.sample(format!("texts of every byte length 0..={max}, four variants, altered last symbol"));
        }
        "ws" => {
            // one whitespace (or near-whitespace) character inserted at every position; then a second one
            let max = if t { 200 } else { 134 };
            for n in 0..=max {
                if !x.mine() {
                    continue;
                }
                let nb = n * 3 / 4;
                for v in [0u8, 2] {
                    let s = canonical(C64, v, nb, 2);
                    for i in 0..=s.len() {
                        let mut u = s.clone();
                        u.insert(i, b' ');
                        for &w in WS.iter().chain(&NEAR) {
                            u[i] = w;
                            x.put(End, &u);
                            all(x, End, u.len());
                        }
                    }
                }
            }
            x.sample(format!("each whitespace and near-whitespace character inserted at every position, up to {max} symbols"));
        }
        "ws2" => {
            let lens: Vec<usize> = if t { (0..=100).collect() } else { (0..=40).chain([44, 48, 51, 52, 64, 66, 68, 80]).collect() };
            for n in lens {
                let nb = n * 3 / 4;
                for v in [0u8, 2] {
                    let s = canonical(C64, v, nb, 2);
                    for i in 0..=s.len() {
                        if !x.mine() {
                            continue;
                        }
                        for j in i + 1..=s.len() + 1 {
                            let mut u = s.clone();
                            u.insert(i, b' ');
                            u.insert(j, b' ');
                            for (k, &a) in [b' ', b'\t', b'\r', 0x0b, b'='].iter().enumerate() {
                                u[i] = a;
                                for (l, &b) in [b'\n', 0x0c, b' ', 0x0b, b'='].iter().enumerate() {
                                    u[j] = b;
                                    x.put(End, &u);
                                    if t {
                                        all(x, End, u.len());
                                    } else {
                                        some(x, End, u.len(), i + j + k + l);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            x.sample("two inserted characters at every pair of positions".into());
        }
        "every" => {
            // a whitespace or a bad character put in at every position of long texts
            let all = long_lengths(t);
            for &n in all.iter().chain(&VERY_LONG) {
                let nb = n * 3 / 4;
                let s = canonical(C64, (n % 2 * 2) as u8, nb, 2);
                let mut u = s.clone();
                // one whitespace far away, so that the compaction runs over the rest of the text
                u.insert(n % 90, b'\n');
                let len = u.len();
                let at: Vec<usize> = if all.contains(&n) { (0..len).collect() } else { sparse(len, t) };
                for chunk in at.chunks(256) {
                    if !x.mine() {
                        continue;
                    }
                    for (k, base) in [&s, &u].into_iter().enumerate() {
                        x.put(End, base);
                        let b = x.src_buf(End, base.len());
                        for &i in chunk {
                            if i >= base.len() || (!t && (i % 2 != k || n > 7000 && i % 4 / 2 != 0)) {
                                continue;
                            }
                            for c in [b" \n\t\x0c\r"[i / 3 % 5], b"!\x0b=\x80-"[i / 5 % 5]] {
                                b[i] = c;
                                some(x, End, base.len(), i / 4 + c as usize);
                            }
                            b[i] = base[i];
                        }
                    }
                }
            }
            x.sample(format!("a whitespace or bad character at every position of {all:?} characters, at many positions of {VERY_LONG:?}"));
        }
        "align" => {
            for (so, d_o, cross) in placements(1) {
                if !x.mine() {
                    continue;
                }
                for nb in (0..=110usize).chain([191, 192]) {
                    if !cross && (so * 7 + d_o * 3 + nb) % (if t { 2 } else { 12 }) != 0 {
                        continue;
                    }
                    let mut s = canonical(C64, (nb % 2 * 2) as u8, nb, 0);
                    for ws in 0..3usize {
                        if ws > 0 {
                            s.insert((nb * 5 + so) % (s.len() + 1), b' ');
                        }
                        x.put(At(so), &s);
                        for o in [Op::Forg, Op::ForgIn] {
                            x.run(o, At(so), s.len(), At(d_o), s.len());
                        }
                    }
                }
            }
            x.sample("source and destination offsets 0..64 and across a page boundary, without and with whitespace".into());
        }
        "runs" => {
            // a run of k whitespace characters at every position
            let lens: &[usize] = if t { &[0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 40, 48, 64, 80, 96, 128] } else { &[0, 1, 2, 3, 4, 7, 15, 16, 17, 32, 33, 40, 64, 80] };
            for &n in lens {
                for k in 1..=72usize {
                    if !x.mine() {
                        continue;
                    }
                    let s = canonical(C64, (k % 2 * 2) as u8, n * 3 / 4, 2);
                    for i in 0..=s.len() {
                        let mut u = s[..i].to_vec();
                        for q in 0..k {
                            u.push(WS[(q + i) % 5]);
                        }
                        u.extend_from_slice(&s[i..]);
                        x.put(End, &u);
                        all(x, End, u.len());
                    }
                }
            }
            x.sample("a run of 1..=72 whitespace characters at every position".into());
        }
        "multi" => {
            multi(
                x,
                1,
                &[600, 1032, 2120, 4200],
                32,
                &|b, k| {
                    let len = b.len();
                    b.copy_from_slice(&canonical(C64, (k % 2 * 2) as u8, len / 4 * 3, 2));
                },
                &[b"!", b" ", b"\x80", b"\n"],
                &|x, b, _, k| some(x, End, b.len(), k),
            );
            // long runs of whitespace: between, before and after
            for k in (73..=if t { 3000 } else { 1100 }).chain([4095, 4096, 4097, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 1 << 20, (1 << 24) + 1]) {
                if !x.mine() {
                    continue;
                }
                for (a, z) in [(0usize, 8usize), (8, 0), (4, 4), (41, 39), (3, 65)] {
                    let b = x.src_buf(End, a + k + z);
                    let n = b.len();
                    for (i, c) in b.iter_mut().enumerate() {
                        *c = if (a..n - z).contains(&i) { WS[(i + k) % 5] } else { b"QkJzWv09"[i % 8] };
                    }
                    all(x, End, n);
                }
            }
            x.sample("runs of 1..=1100 whitespace characters, and around powers of two up to 2^24".into());
        }
        "duo" => {
            // two characters put into a text, one of them any byte, the other whitespace or close to it, up to 9
            // places apart; any two neighbours; any three neighbours out of a few. The lengths are such that the
            // text stays decodable whichever of them a wrong decoder drops or keeps.
            let few: Vec<u8> = WS.iter().chain(&NEAR).copied().chain(*b"A=-").collect();
            let tri: Vec<u8> = if t { few.clone() } else { WS.iter().copied().chain([0x0b, 0x21, 0x1f, 0x0e, 0x8a, b'A', b'=']).collect() };
            for (n, lead) in [(22usize, false), (22, true), (46, false), (46, true)] {
                let base: Vec<u8> = (0..n).map(|i| b"QkJzWv09"[i % 8]).collect();
                for i in 0..=n {
                    if !x.mine() {
                        continue;
                    }
                    // the places are behind one another: base[..i] c1 base[i..i+d-1] c2 base[i+d-1..]
                    for d in (1..=9usize).chain([15, 16, 17, 31, 32, 33]) {
                        if i + d - 1 > n {
                            continue;
                        }
                        let mut u = vec![b'\n'; lead as usize];
                        let a = u.len() + i;
                        u.extend_from_slice(&base[..i]);
                        u.push(b' ');
                        u.extend_from_slice(&base[i..i + d - 1]);
                        u.push(b' ');
                        u.extend_from_slice(&base[i + d - 1..]);
                        let len = u.len();
                        let b = x.src_buf(End, len);
                        b.copy_from_slice(&u);
                        let step = if t || d < 10 { 1 } else { 7 };
                        for (k, &f) in few.iter().enumerate().step_by(step) {
                            for v in 0..=255u8 {
                                (b[a], b[a + d]) = (f, v);
                                some(x, End, len, k + v as usize + i);
                                (b[a], b[a + d]) = (v, f);
                                some(x, End, len, k + v as usize + i + 1);
                            }
                        }
                        if d == 1 && (t || n == 22) {
                            for v in 0..=255u8 {
                                for w in 0..=255u8 {
                                    (b[a], b[a + 1]) = (v, w);
                                    some(x, End, len, v as usize + w as usize + i);
                                }
                            }
                        }
                    }
                    let mut u = vec![b'\n'; lead as usize];
                    let a = u.len() + i;
                    u.extend_from_slice(&base[..i]);
                    u.extend_from_slice(b"   ");
                    u.extend_from_slice(&base[i..]);
                    let len = u.len();
                    let b = x.src_buf(End, len);
                    b.copy_from_slice(&u);
                    for (k, &p) in tri.iter().enumerate() {
                        for (l, &q) in tri.iter().enumerate() {
                            for (m, &r) in tri.iter().enumerate() {
                                b[a..a + 3].copy_from_slice(&[p, q, r]);
                                some(x, End, len, k + l + m + i);
                            }
                        }
                    }
                }
            }
            x.sample("two and three inserted characters: any byte next to or near whitespace, any two neighbours, at every position".into());
        }
        "masks" => {
            // all whitespace masks of a 16-character window (thorough: 18), at several offsets
            let w = if t { 18 } else { 16 };
            for off in [0usize, 1, 15, 16, 17, 32, 45] {
                for mask in 0..1usize << w {
                    if (mask / 1024 + off) % x.nshards != x.shard {
                        continue;
                    }
                    let len = off + w + (mask.count_ones() as usize) % 4 + off % 3;
                    let b = x.src_buf(End, len);
                    for (i, c) in b.iter_mut().enumerate() {
                        *c = b"QkJzWv09"[i % 8];
                    }
                    for i in 0..w {
                        if mask >> i & 1 == 1 {
                            b[off + i] = WS[(i + mask) % 5];
                        }
                    }
                    if off % 2 == 0 {
                        all(x, End, len);
                    } else {
                        some(x, End, len, mask);
                    }
                }
            }
            x.sample(format!("all 2^{w} whitespace masks of a {w}-character window at 7 offsets"));
        }
        "bytes" => {
            // every byte value at every position, with a whitespace elsewhere
            let max = if t { 140 } else { 84 };
            for n in 1..=max {
                if !x.mine() {
                    continue;
                }
                for (v, ws) in [(0u8, usize::MAX), (2, usize::MAX), (0, 0), (0, n / 2), (2, n)] {
                    let mut s = canonical(C64, v, n * 3 / 4, 2);
                    if ws != usize::MAX {
                        s.insert(ws.min(s.len()), b'\n');
                    }
                    x.put(End, &s);
                    let b = x.src_buf(End, s.len());
                    for i in 0..s.len() {
                        for val in 0..=255u8 {
                            b[i] = val;
                            if t || ws == usize::MAX {
                                all(x, End, s.len());
                            } else {
                                some(x, End, s.len(), val as usize + i);
                            }
                        }
                        b[i] = s[i];
                    }
                }
            }
            x.sample(format!("every byte value at every position, up to {max} symbols, 5 whitespace contexts"));
        }
        "tail" => {
            // endings over {A, =, space, LF}
            let max = if t { 300 } else { 140 };
            let depth = if t { 6 } else { 5 };
            for n in 0..=max {
                if !x.mine() {
                    continue;
                }
                for lead in [0usize, 1] {
                    for d in 0..=depth {
                        for code in 0..4usize.pow(d) {
                            let mut s = vec![b' '; lead];
                            s.extend((0..n).map(|i| b"QkJzWv09"[i % 8]));
                            let mut r = code;
                            for _ in 0..d {
                                s.push(b"A= \n"[r % 4]);
                                r /= 4;
                            }
                            x.put(End, &s);
                            some(x, End, s.len(), code + n);
                            if n < 40 || t {
                                some(x, End, s.len(), code + n + 1);
                            }
                        }
                    }
                }
            }
            x.sample(format!("every ending of up to {depth} characters over {{A,=,space,LF}} after 0..={max} symbols"));
        }
        "dst" => {
            for n in 0..=if t { 200usize } else { 100 } {
                if !x.mine() {
                    continue;
                }
                for ws in [usize::MAX, 0, n / 2, n] {
                    for v in [0u8, 2] {
                        let mut s = canonical(C64, v, n * 3 / 4, 2);
                        if ws != usize::MAX {
                            s.insert(ws.min(s.len()), b' ');
                        }
                        for bad in [false, true] {
                            if bad && !s.is_empty() {
                                let i = n * 5 % s.len();
                                s[i] = b'!';
                            }
                            x.canary = true;
                            for dl in 0..s.len() + 4 {
                                x.put(End, &s);
                                x.run(Op::Forg, End, s.len(), End, dl);
                                x.run(Op::Forg, End, s.len(), At(dl % 64), dl);
                            }
                            x.canary = false;
                        }
                    }
                }
            }
            x.sample("every destination size 0..=len+3".into());
        }
        "windows" => {
            for nb in window_lengths(9, if t { 23 } else { 18 }, if t { 20 } else { 7 }) {
                if !x.mine() {
                    continue;
                }
                let s = canonical(C64, (nb % 2 * 2) as u8, nb, 2);
                x.put(End, &s);
                all(x, End, s.len());
                // MIME style line breaks
                for line in [76usize, 64, 4096] {
                    let mut u = vec![];
                    for l in s.chunks(line) {
                        u.extend_from_slice(l);
                        u.extend_from_slice(b"\r\n");
                    }
                    x.put(End, &u);
                    some(x, End, u.len(), nb);
                    some(x, End, u.len(), nb + 1);
                    let n = u.len();
                    for i in [0, n / 3, n / 2, n - 9] {
                        let b = x.src_buf(End, n);
                        let old = b[i];
                        b[i] = b"\x0b!=-"[i % 4];
                        some(x, End, n, nb + i);
                        b[i] = old;
                    }
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}
