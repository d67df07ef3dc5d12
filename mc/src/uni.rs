//! C10, C11, C12: ASCII and UTF-32 validation, endianness swaps.
use crate::codec::{fill_pat, long_lengths, multi, placements, sparse, window_lengths, VERY_LONG};
use crate::env::{self, Place::*};
use crate::explore::X;
use crate::ops::*;
use crate::refm;
use std::sync::atomic::Ordering::Relaxed;

pub fn ascii_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    let both = [Op::IsAscii, Op::FromAscii];
    match part {
        "bytes" => {
            // every byte value at every position of every length
            let max = if t { 420 } else { 260 };
            for len in 0..=max {
                if !x.mine() {
                    continue;
                }
                for pl in [Start, End] {
                    let b = x.src_buf(pl, len);
                    for i in 0..len {
                        b[i] = (i * 7 + len) as u8 & 0x7f;
                    }
                    for o in both {
                        x.run(o, pl, len, Start, 0);
                    }
                    for i in 0..len {
                        let old = b[i];
                        if len <= 150 && pl == End {
                            for v in 0..=255u8 {
                                b[i] = v;
                                x.run(both[(v as usize + i) % 2], pl, len, Start, 0);
                            }
                        } else {
                            for v in [0x7f, 0x80, 0xff, 0xc3, 0x00] {
                                b[i] = v;
                                x.run(both[(v as usize + i) % 2], pl, len, Start, 0);
                            }
                        }
                        b[i] = old;
                    }
                }
            }
            x.sample(format!("every (length 0..={max}, position, byte value)"));
        }
        "pairs" => {
            for len in if t { 0..=140usize } else { 0..=84usize } {
                if !x.mine() {
                    continue;
                }
                let b = x.src_buf(End, len);
                b.fill(b'q');
                for i in 0..len {
                    for j in i + 1..len {
                        for (p, q) in [(0x80u8, 0x80u8), (0xff, 0xff), (0x80, 0xff), (0x7f, 0x80), (0xaa, 0x55)] {
                            b[i] = p;
                            b[j] = q;
                            x.run(both[(i + j) % 2], End, len, Start, 0);
                        }
                        b[j] = b'q';
                    }
                    b[i] = b'q';
                }
            }
            x.sample("every pair of positions of every length".into());
        }
        "every" => {
            let all = long_lengths(t);
            for &len in all.iter().chain(&VERY_LONG) {
                let at: Vec<usize> = if all.contains(&len) { (0..len).collect() } else { sparse(len, t) };
                for chunk in at.chunks(1024) {
                    if !x.mine() {
                        continue;
                    }
                    let b = x.src_buf(End, len);
                    for i in 0..len {
                        b[i] = (i * 31) as u8 & 0x7f;
                    }
                    for &i in chunk {
                        let old = b[i];
                        b[i] = [0x80, 0xff, 0xc3][i / 2 % 3];
                        x.run(both[i % 2], End, len, Start, 0);
                        b[i] = old;
                    }
                }
            }
            x.sample(format!("a non-ASCII byte at every position of {all:?} bytes, at many positions of {VERY_LONG:?}"));
        }
        "multi" => multi(
            x,
            1,
            &[600, 1050, 2118, 4199, 8327, 16519],
            64,
            &|b, k| b.iter_mut().enumerate().for_each(|(i, c)| *c = (i * 31 + k) as u8 & 0x7f),
            &[b"\x80", b"\xff", b"\xc3"],
            &|x, b, _, k| x.run(both[k % 2], End, b.len(), Start, 0),
        ),
        "masks" => {
            // all masks of 16 high bits
            for (len, off) in [(16usize, 0usize), (17, 1), (32, 16), (40, 11), (64, 20), (64, 48), (80, 40)] {
                for m in 0..1usize << 16 {
                    if (m >> 10) % x.nshards != x.shard {
                        continue;
                    }
                    let b = x.src_buf(End, len);
                    b.fill(0x41);
                    for k in 0..16 {
                        b[off + k] = 0x21 | if m >> k & 1 == 1 { 0x80 } else { 0 };
                    }
                    x.run(both[m % 2], End, len, Start, 0);
                }
            }
            x.sample("all 2^16 high-bit masks of a 16-byte window in 7 frames".into());
        }
        "windows" => {
            for len in window_lengths(8, if t { 24 } else { 20 }, if t { 40 } else { 20 }) {
                if !x.mine() {
                    continue;
                }
                let b = x.src_buf(End, len);
                for i in 0..len {
                    b[i] = (i * 31) as u8 & 0x7f;
                }
                x.run(both[0], End, len, Start, 0);
                x.run(both[1], End, len, Start, 0);
                let step = (len / 64).max(1) | 1;
                let dense: Vec<usize> = (0..len.min(if t { 700 } else { 300 }))
                    .chain(len.saturating_sub(if t { 700 } else { 300 })..len)
                    .chain((0..len).step_by(step))
                    .collect();
                for i in dense {
                    if len > 1 << 17 && i % 16 != 3 {
                        continue;
                    }
                    let old = b[i];
                    b[i] = if i % 2 == 0 { 0x80 } else { 0xff };
                    x.run(both[i % 2], End, len, Start, 0);
                    b[i] = old;
                }
            }
        }
        "align" => {
            for so in (0..64).chain(env::PAGE - 100..env::PAGE) {
                if !x.mine() {
                    continue;
                }
                for len in 0..=200usize {
                    let b = x.src_buf(At(so), len);
                    b.fill(0x7f);
                    x.run(both[0], At(so), len, Start, 0);
                    x.run(both[1], At(so), len, Start, 0);
                    for i in 0..len {
                        b[i] = 0x80;
                        x.run(both[i % 2], At(so), len, Start, 0);
                        b[i] = 0x7f;
                    }
                }
            }
            x.sample("64 alignments x lengths 0..=200 x position of one non-ASCII byte".into());
        }
        _ => panic!("unknown part {part}"),
    }
}

pub const U32B: [u32; 40] = [
    0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdffe, 0xdfff, 0xe000, 0xe001, 0xfffe, 0xffff, 0x10000,
    0x1d7ff, 0x1d800, 0x1dfff, 0xd8000, 0x10d800, 0x10ffff, 0x10fffe, 0x110000, 0x110001, 0x11d800, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0x8000d800,
    0x80000041, 0xffffd800, 0xffffdfff, 0xffffffff,
];

fn set(b: &mut [u8], i: usize, v: u32) {
    b[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
}

pub fn utf32_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    let op = Op::IsUtf32;
    match part {
        "bounds" => {
            // boundary values at every position of every length
            let max = if t { 200 } else { 100 };
            for n in 0..=max {
                if !x.mine() {
                    continue;
                }
                for pl in [Start, End] {
                    let b = x.src_buf(pl, n * 4);
                    for i in 0..n {
                        set(b, i, [0x41, 0x10ffff, 0xe000, 0xd7ff, 0x1f600][(i + n) % 5]);
                    }
                    x.run(op, pl, n * 4, Start, 0);
                    for i in 0..n {
                        let old: [u8; 4] = b[i * 4..i * 4 + 4].try_into().unwrap();
                        for v in U32B {
                            set(b, i, v);
                            x.run(op, pl, n * 4, Start, 0);
                        }
                        b[i * 4..i * 4 + 4].copy_from_slice(&old);
                    }
                }
            }
            x.sample(format!("{} boundary values at every position of every length 0..={max}", U32B.len()));
        }
        "pairs" => {
            for n in if t { 2..=40usize } else { 2..=20usize } {
                for i in 0..n {
                    if !x.mine() {
                        continue;
                    }
                    let b = x.src_buf(End, n * 4);
                    for k in 0..n {
                        set(b, k, 0x10ffff - k as u32);
                    }
                    for j in i + 1..n {
                        for v in U32B {
                            set(b, i, v);
                            for w in U32B {
                                set(b, j, w);
                                x.run(op, End, n * 4, Start, 0);
                            }
                        }
                        set(b, j, 0x41);
                    }
                }
            }
            x.sample("all pairs of boundary values at every pair of positions".into());
        }
        "windows" => {
            for n in window_lengths(6, if t { 21 } else { 17 }, 12) {
                if !x.mine() {
                    continue;
                }
                let b = x.src_buf(End, n * 4);
                for i in 0..n {
                    set(b, i, (i as u32 * 2654435761) % 0xd800);
                }
                x.run(op, End, n * 4, Start, 0);
                let step = (n / 50).max(1) | 1;
                let d = if t { 200 } else { 70 };
                for i in (0..n.min(d)).chain(n.saturating_sub(d)..n).chain((0..n).step_by(step)) {
                    let old: [u8; 4] = b[i * 4..i * 4 + 4].try_into().unwrap();
                    set(b, i, [0xd800, 0x110000, 0xdfff, 0xffffffff, 0x80000000][i % 5]);
                    x.run(op, End, n * 4, Start, 0);
                    b[i * 4..i * 4 + 4].copy_from_slice(&old);
                }
            }
        }
        "align" => {
            for so in (0..64).step_by(4).chain((env::PAGE - 100..env::PAGE).step_by(4)) {
                for n in 0..=70usize {
                    if !x.mine() {
                        continue;
                    }
                    let b = x.src_buf(At(so), n * 4);
                    for i in 0..n {
                        set(b, i, 0xd7ff);
                    }
                    x.run(op, At(so), n * 4, Start, 0);
                    for i in 0..n {
                        for v in [0xd800, 0x110000, 0xffff_ffff, 0xdfff] {
                            set(b, i, v);
                            x.run(op, At(so), n * 4, Start, 0);
                        }
                        set(b, i, 0xd7ff);
                    }
                }
            }
        }
        "every" => {
            let all = long_lengths(t);
            for &n in all.iter().chain(&VERY_LONG) {
                let at: Vec<usize> = if all.contains(&n) { (0..n).collect() } else { sparse(n, t) };
                for chunk in at.chunks(1024) {
                    if !x.mine() {
                        continue;
                    }
                    let b = x.src_buf(End, n * 4);
                    for i in 0..n {
                        set(b, i, (i as u32).wrapping_mul(2654435761) % 0xd800);
                    }
                    for &i in chunk {
                        let old: [u8; 4] = b[i * 4..i * 4 + 4].try_into().unwrap();
                        set(b, i, [0xd800, 0x110000, 0xdfff, 0xffffffff, 0x80000000][i / 3 % 5]);
                        x.run(op, End, n * 4, Start, 0);
                        b[i * 4..i * 4 + 4].copy_from_slice(&old);
                    }
                }
            }
            x.sample(format!("an invalid unit at every position of {all:?} units, at many positions of {VERY_LONG:?}"));
        }
        "multi" => multi(
            x,
            4,
            &[100, 331, 1050, 2100, 4133, 8260],
            16,
            &|b, k| b.chunks_exact_mut(4).enumerate().for_each(|(i, c)| c.copy_from_slice(&((i * 7919 + k) as u32 % 0xd800).to_le_bytes())),
            &[&[0, 0xd8, 0, 0], &[0, 0, 0x11, 0], &[0xff, 0xdf, 0, 0], &[0, 0, 0, 0x80], &[0xff; 4]],
            &|x, b, _, _| x.run(op, End, b.len(), Start, 0),
        ),
        "valid" => {
            // all 1,112,064 scalar values in one array, at every lane rotation
            for rot in 0..32usize {
                if !x.mine() {
                    continue;
                }
                let n = 0x110000 - 0x800 + rot;
                let b = x.src_buf(End, n * 4);
                for i in 0..rot {
                    set(b, i, 0x41);
                }
                for k in 0..n - rot {
                    let k32 = k as u32;
                    set(b, rot + k, if k32 < 0xd800 { k32 } else { k32 + 0x800 });
                }
                x.run(op, End, n * 4, Start, 0);
                x.group("scalar values accepted", (n - rot) as u64);
            }
            x.sample("all 1112064 scalar values, in every lane".into());
        }
        "all" => {
            // every 32-bit value on its own, in a vector of 13 units; quick: the lane follows the value,
            // thorough: every lane
            const N: usize = 13;
            let b = x.src_buf(End, N * 4);
            for i in 0..N {
                set(b, i, 0x41);
            }
            let off = x.src.off(End, N * 4);
            let view = unsafe { core::slice::from_raw_parts(x.src.view.add(off).cast::<u32>(), N) };
            let p = unsafe { x.src.rw.add(off).cast::<u32>() };
            let chunk = 1u64 << 22;
            let lanes: usize = if t { N } else { 1 };
            for c in 0..1024u64 {
                if !x.mine() {
                    continue;
                }
                for l in 0..lanes {
                    x.cases += chunk;
                    x.calls += chunk;
                    x.group("32-bit values decided", chunk);
                    #[allow(static_mut_refs)]
                    unsafe {
                        env::CASE.op = op;
                        env::CASE.src = p.cast();
                        env::CASE.src_len = N * 4;
                        env::CASE.src_off = off;
                    }
                    let mut good = 0;
                    env::IN_CALL.store(true, Relaxed);
                    env::PROGRESS.fetch_add(1, Relaxed);
                    for v in c * chunk..(c + 1) * chunk {
                        let v = v as u32;
                        let lane = if t { l } else { (v ^ v >> 4 ^ v >> 11) as usize % N };
                        unsafe { p.add(lane).write_volatile(v) };
                        let r = unicode_simd::is_utf32le(view);
                        if r != refm::is_scalar(v) {
                            env::violation(&format!("is_utf32le answers {r} with unit {v:#x} at position {lane} of {N}"));
                        }
                        good += r as u64;
                        unsafe { p.add(lane).write_volatile(0x41) };
                    }
                    env::IN_CALL.store(false, Relaxed);
                    x.ok += good;
                    x.err += chunk - good;
                }
            }
            x.sample("every 32-bit value".into());
        }
        _ => panic!("unknown part {part}"),
    }
}

pub fn swap_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    let all = [Op::Swap16, Op::Swap16In, Op::Swap32, Op::Swap32In];
    match part {
        "lengths" => {
            for n in 0..=if t { 2000usize } else { 600 } {
                if !x.mine() {
                    continue;
                }
                for p in 0..8 {
                    for o in all {
                        let len = n * o.unit();
                        for pl in [Start, End] {
                            let b = x.src_buf(pl, len);
                            fill_pat(b, p);
                            x.run(o, pl, len, pl, len);
                        }
                    }
                }
                for o in all {
                    let len = n * o.unit();
                    let b = x.src_buf(End, len);
                    fill_pat(b, 4);
                    for extra in [1usize, 2, 3, 64] {
                        x.run(o, End, len, End, len + extra * o.unit());
                    }
                    if n > 0 && n < 40 {
                        x.canary = true;
                        for dl in 0..n {
                            x.run(o, End, len, End, dl * o.unit());
                        }
                        x.canary = false;
                    }
                }
            }
            x.sample("every length with 8 contents, surplus and short destinations".into());
        }
        "values" => {
            // all 16-bit units in every lane of a 64-byte frame; all values of byte pairs of 32-bit units
            for lane in 0..32usize {
                for o in [Op::Swap16, Op::Swap16In] {
                    if !x.mine() {
                        continue;
                    }
                    let n = 65536 * 2 + lane;
                    let b = x.src_buf(End, n * 2);
                    b.fill(0x5c);
                    for k in 0..65536usize {
                        let i = (lane + k * 2) * 2;
                        b[i] = k as u8;
                        b[i + 1] = (k >> 8) as u8;
                    }
                    x.run(o, End, n * 2, End, n * 2);
                    x.group("16-bit units swapped", 65536);
                }
            }
            for lane in 0..16usize {
                for i in 0..4usize {
                    for j in i + 1..4 {
                        for o in [Op::Swap32, Op::Swap32In] {
                            if !x.mine() {
                                continue;
                            }
                            let n = 65536 + lane;
                            let b = x.src_buf(End, n * 4);
                            b.fill(0x17);
                            for k in 0..65536usize {
                                let a = (lane + k) * 4;
                                b[a + i] = k as u8;
                                b[a + j] = (k >> 8) as u8;
                            }
                            x.run(o, End, n * 4, End, n * 4);
                            x.group("32-bit units swapped", 65536);
                        }
                    }
                }
            }
            x.sample("all 2^16 16-bit units in 32 lanes; all byte pairs of 32-bit units in 16 lanes".into());
        }
        "align" => {
            for (so, d_o, _) in placements(2) {
                if !x.mine() {
                    continue;
                }
                {
                    for n in 0..=if t { 80usize } else { 40 } {
                        for o in all {
                            if so % o.unit() != 0 || d_o % o.unit() != 0 {
                                continue;
                            }
                            let len = n * o.unit();
                            let b = x.src_buf(At(so), len);
                            fill_pat(b, 4);
                            x.canary = true;
                            x.run(o, At(so), len, At(d_o), len);
                            x.canary = false;
                        }
                    }
                }
            }
            x.sample("all unit-aligned source and destination offsets in 64 bytes x lengths".into());
        }
        "windows" => {
            for n in window_lengths(8, if t { 22 } else { 19 }, if t { 40 } else { 17 }) {
                if !x.mine() {
                    continue;
                }
                for o in all {
                    let len = n * o.unit();
                    let b = x.src_buf(End, len);
                    fill_pat(b, 2);
                    x.run(o, End, len, End, len);
                }
            }
        }
        _ => panic!("unknown part {part}"),
    }
}
