//! C20: length calculations.
use crate::env;
use crate::explore::X;
use crate::ops::{self, *};
use crate::refm;
use std::sync::atomic::Ordering::Relaxed;

fn set(op: Op, n: usize) {
    #[allow(static_mut_refs)]
    unsafe {
        env::CASE.op = op;
        env::CASE.src_len = n;
        env::CASE.note = "giant";
    }
    env::IN_CALL.store(true, Relaxed);
    env::PROGRESS.fetch_add(1, Relaxed);
}

fn enc_calc(op: Op, n: usize) -> usize {
    match op {
        Op::B64(v, _) => ops::B64V[v as usize].encoded_length(n),
        Op::B32(v, _) => ops::B32V[v as usize].encoded_length(n),
        _ => hex_simd::encoded_length(n),
    }
}
fn exact(op: Op, n: usize) -> u128 {
    match op {
        Op::B64(v, _) => refm::b64_enc_len(v < 2, n as u128),
        Op::B32(v, _) => refm::b32_enc_len(v < 2, n as u128),
        _ => n as u128 * 2,
    }
}
/// the most bytes any text of n characters can decode to
fn max_dec(op: Op, n: usize) -> u128 {
    let n = n as u128;
    match op {
        Op::B64(v, _) => {
            if v < 2 {
                n / 4 * 3
            } else {
                n / 4 * 3 + [0, 0, 1, 2][(n % 4) as usize]
            }
        }
        Op::B32(v, _) => {
            if v < 2 {
                n / 8 * 5
            } else {
                n / 8 * 5 + [0, 0, 1, 1, 2, 3, 3, 4][(n % 8) as usize]
            }
        }
        _ => n / 2,
    }
}

fn one(x: &mut X, op: Op, n: usize) {
    const MAX: usize = usize::MAX / 2;
    set(op, n);
    x.calls += 1;
    x.cases += 1;
    if !x.seen.is_null() {
        unsafe { x.mark(op, &n.to_le_bytes(), 0, 0, 0) };
        set(op, n);
    }
    match op {
        Op::Hex(_, DecLen) => {
            let r = hex_simd::decoded_length(n).ok();
            let e = if n % 2 == 0 { Some(n / 2) } else { None };
            if r != e {
                env::violation(&format!("hex decoded_length({n}) = {r:?}, expected {e:?}"));
            }
            x.ok += 1;
        }
        Op::B64(_, EstLen) | Op::B32(_, EstLen) => {
            let r = match op {
                Op::B64(v, _) => ops::B64V[v as usize].estimated_decoded_length(n),
                Op::B32(v, _) => ops::B32V[v as usize].estimated_decoded_length(n),
                _ => unreachable!(),
            };
            let m = max_dec(op, n);
            if (r as u128) < m {
                env::violation(&format!("estimated_decoded_length({n}) = {r}, but {m} bytes can be decoded"));
            }
            x.ok += 1;
        }
        _ => {
            if n <= MAX {
                let r = enc_calc(op, n);
                if r as u128 != exact(op, n) {
                    env::violation(&format!("encoded_length({n}) = {r}, exact value {}", exact(op, n)));
                }
                x.ok += 1;
            } else {
                env::EXPECT_PANIC.store(true, Relaxed);
                let r = std::panic::catch_unwind(|| enc_calc(op, n));
                env::EXPECT_PANIC.store(false, Relaxed);
                if let Ok(r) = r {
                    env::violation(&format!("encoded_length({n}) = {r}: the documented panic beyond usize::MAX / 2 did not happen"));
                }
                x.err += 1;
            }
        }
    }
    env::IN_CALL.store(false, Relaxed);
}

fn len_ops() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..4 {
        v.extend([Op::B64(k, EncLen), Op::B64(k, EstLen), Op::B32(k, EncLen), Op::B32(k, EstLen)]);
    }
    v.extend([Op::Hex(0, EncLen), Op::Hex(0, DecLen)]);
    v
}

pub fn parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "calc" => {
            let max = if t { 1usize << 26 } else { 1 << 21 };
            let ops = len_ops();
            for c in 0..max >> 12 {
                if !x.mine() {
                    continue;
                }
                for n in c << 12..(c + 1) << 12 {
                    for &o in &ops {
                        one(x, o, n);
                    }
                }
            }
            x.sample(format!("every size 0..{max}, 18 calculations"));
        }
        "edges" => {
            let ops = len_ops();
            let w = if t { 4096usize } else { 512 };
            let mut bases: Vec<usize> = vec![];
            for k in 12..usize::BITS {
                bases.push(1usize << k);
                bases.push((1usize << (k - 1)) + (1usize << (k - 2)));
            }
            for d in [3usize, 5, 7, 8, 9, 10, 11, 15, 16, 20, 24, 25, 32, 40] {
                bases.push(usize::MAX / d);
                bases.push(usize::MAX / d * 2);
                bases.push(usize::MAX / 2 / d);
                bases.push(usize::MAX / d * (d - 1));
                bases.push(u32::MAX as usize / d);
            }
            bases.push(usize::MAX / 2);
            bases.push(usize::MAX);
            for b in bases {
                if !x.mine() {
                    continue;
                }
                let lo = b.saturating_sub(w);
                let hi = b.saturating_add(w);
                for n in lo..=hi {
                    // the panic path is slow: thin it out away from the boundary
                    for &o in &ops {
                        let far = n > usize::MAX / 2 && n - usize::MAX / 2 > 300 && n < usize::MAX - 40 && n % 37 != 0;
                        let enc = matches!(o, Op::B64(_, EncLen) | Op::B32(_, EncLen) | Op::Hex(_, EncLen));
                        if far && enc {
                            continue;
                        }
                        one(x, o, n);
                    }
                }
            }
            x.sample(format!("windows of +-{w} around every power of two, 3*2^k and usize::MAX*a/b, up to usize::MAX"));
        }
        // every size there is (32-bit targets)
        #[cfg(target_pointer_width = "32")]
        "full" => {
            let est: Vec<Op> = (0..4).flat_map(|k| [Op::B64(k, EstLen), Op::B32(k, EstLen)]).collect();
            for c in 0..1u64 << 12 {
                if !x.mine() {
                    continue;
                }
                let lo = (c << 20) as usize;
                let hi = (lo as u64 + (1 << 20)) as u64;
                set(Op::Hex(0, DecLen), lo);
                let mut bad: Option<(Op, usize)> = None;
                for n in lo as u64..hi {
                    let (n, m) = (n as usize, n);
                    let e = if m % 2 == 0 { Some(n / 2) } else { None };
                    if hex_simd::decoded_length(n).ok() != e {
                        bad.get_or_insert((Op::Hex(0, DecLen), n));
                    }
                    let (q, r) = (m / 4, m % 4);
                    let d64 = [q * 3, q * 3 + [0, 0, 1, 2][r as usize]];
                    let (q, r) = (m / 8, m % 8);
                    let d32 = [q * 5, q * 5 + [0, 0, 1, 1, 2, 3, 3, 4][r as usize]];
                    for k in 0..4u8 {
                        if (ops::B64V[k as usize].estimated_decoded_length(n) as u64) < d64[(k / 2) as usize] {
                            bad.get_or_insert((est[2 * k as usize], n));
                        }
                        if (ops::B32V[k as usize].estimated_decoded_length(n) as u64) < d32[(k / 2) as usize] {
                            bad.get_or_insert((est[2 * k as usize + 1], n));
                        }
                    }
                    if m <= 0x7fff_ffff {
                        let (q, r) = (m / 3 * 4, (m % 3) as usize);
                        let e64 = [q + [0, 4, 4][r], q + [0, 2, 3][r]];
                        let (q, r) = (m / 5 * 8, (m % 5) as usize);
                        let e32 = [q + [0, 8, 8, 8, 8][r], q + [0, 2, 4, 5, 7][r]];
                        for k in 0..4u8 {
                            if ops::B64V[k as usize].encoded_length(n) as u64 != e64[(k / 2) as usize] {
                                bad.get_or_insert((Op::B64(k, EncLen), n));
                            }
                            if ops::B32V[k as usize].encoded_length(n) as u64 != e32[(k / 2) as usize] {
                                bad.get_or_insert((Op::B32(k, EncLen), n));
                            }
                        }
                        if hex_simd::encoded_length(n) as u64 != m * 2 {
                            bad.get_or_insert((Op::Hex(0, EncLen), n));
                        }
                    }
                }
                env::IN_CALL.store(false, Relaxed);
                let k = (1u64 << 20) * if c < 1 << 11 { 18 } else { 9 };
                x.calls += k;
                x.cases += k;
                x.ok += k;
                if let Some((op, n)) = bad {
                    one(x, op, n);
                    env::violation(&format!("wrong length for {n}"));
                }
            }
            x.sample("every size of the 32-bit address space, all calculations (documented panics in the other parts)".into());
        }
        "consistent" => {
            // encoded length = length of what encoding returns; decoded length of it = the size
            use crate::env::Place::*;
            let max = if t { 6000 } else { 2000 };
            for n in 0..=max {
                if !x.mine() {
                    continue;
                }
                for v in 0..4u8 {
                    for c in [crate::codec::C64, crate::codec::C32] {
                        let b = x.src_buf(End, n);
                        crate::codec::fill_pat(b, v as usize);
                        let op = c.op(v, Enc);
                        let m = ops::enc_len(op, n);
                        x.run(op, End, n, End, m);
                        x.run(c.op(v, EncLen), End, n, End, m);
                        let s = crate::codec::canonical(c, v, n, v as usize);
                        x.put(End, &s);
                        x.run(c.op(v, DecLen), End, s.len(), End, n);
                        x.run(c.op(v, Dec), End, s.len(), End, n);
                        one(x, c.op(v, EstLen), s.len());
                    }
                }
                #[allow(static_mut_refs)]
                unsafe {
                    env::CASE.note = "";
                }
            }
            x.sample(format!("encoded and decoded lengths of real texts, sizes 0..={max}"));
        }
        _ => panic!("unknown part {part}"),
    }
}
