//! Lengths beyond 4 GiB: the address range is made of one small block mapped over and over, so only a few
//! megabytes of memory are needed. Inputs are periodic, hence so are the results.
use crate::codec::fill_pat;
use crate::env::{self, IN_CALL, PROGRESS};
use crate::explore::X;
use crate::ops::{self, *};
use std::sync::atomic::Ordering::Relaxed;

struct Map {
    base: *mut u8,
    body: *mut u8,
    tail: *mut u8,
    res: *mut u8,
    res_len: usize,
}
fn memfd(len: usize) -> (i32, *mut u8) {
    unsafe {
        let fd = libc::memfd_create(b"giant\0".as_ptr().cast(), 0);
        assert!(fd >= 0 && libc::ftruncate(fd, len as i64) == 0);
        let p = libc::mmap(core::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        (fd, p.cast())
    }
}
impl Map {
    /// `k` copies of a block of `period` bytes, then `tail` bytes of their own.
    fn new(k: usize, period: usize, tail: usize, writable: bool) -> Map {
        unsafe {
            let tl = (tail + 8191) / 4096 * 4096;
            let res_len = k * period + tl + 2 * 65536;
            let res = libc::mmap(core::ptr::null_mut(), res_len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(res != libc::MAP_FAILED);
            let res = res as *mut u8;
            let base = res.add(65536);
            let (bf, body) = memfd(period);
            let (tf, tailp) = memfd(tl);
            let prot = if writable { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_READ };
            for i in 0..k {
                let p = libc::mmap(base.add(i * period).cast(), period, prot, libc::MAP_SHARED | libc::MAP_FIXED, bf, 0);
                assert!(p != libc::MAP_FAILED, "mapping {i}");
            }
            let p = libc::mmap(base.add(k * period).cast(), tl, prot, libc::MAP_SHARED | libc::MAP_FIXED, tf, 0);
            assert!(p != libc::MAP_FAILED);
            libc::close(bf);
            libc::close(tf);
            Map { base, body, tail: tailp, res, res_len }
        }
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.res.cast(), self.res_len);
        }
    }
}

const MB: usize = 1 << 20;

fn call(x: &mut X, op: Op, src: &Map, sl: usize, dst: *mut u8, dl: usize) -> R {
    unsafe {
        env::CASE.op = op;
        env::CASE.src = core::ptr::null();
        env::CASE.src_len = sl;
        env::CASE.dst_len = dl;
        env::CASE.note = "giant";
        PROGRESS.fetch_add(1, Relaxed);
        x.calls += 1;
        x.cases += 1;
        x.bytes += sl as u64;
        x.mark(op, &sl.to_le_bytes(), 0, 1 << 40, dl);
        IN_CALL.store(true, Relaxed);
        let r = ops::exec(op, src.base, sl, dst, dl);
        IN_CALL.store(false, Relaxed);
        r
    }
}
fn sl<'a>(p: *mut u8, n: usize) -> &'a mut [u8] {
    unsafe { core::slice::from_raw_parts_mut(p, n) }
}

/// Judges a transforming operation: one input period gives one output period.
fn transform(x: &mut X, op: Op, pin: usize, total: usize, f: &dyn Fn(&[u8]) -> Vec<u8>, fill: &dyn Fn(&mut [u8], bool)) {
    let k = (total - 1) / pin;
    let t = total - k * pin;
    let src = Map::new(k, pin, t, false);
    fill(sl(src.body, pin), false);
    fill(sl(src.tail, t), true);
    let body = f(sl(src.body, pin));
    let tail = f(sl(src.tail, t));
    let dst = Map::new(k, body.len(), tail.len(), true);
    for (d, e) in sl(dst.body, body.len()).iter_mut().zip(&body) {
        *d = !*e;
    }
    for (d, e) in sl(dst.tail, tail.len() + 4096).iter_mut().zip(tail.iter().chain(std::iter::repeat(&0x33))) {
        *d = !*e;
    }
    let dl = k * body.len() + tail.len();
    match call(x, op, &src, total, dst.base, dl) {
        R::Bytes(p, n) if p == dst.base as *const u8 && n == dl => {}
        r => env::violation(&format!("giant input of {total} bytes: unexpected outcome {}", short(&r, dl))),
    }
    if sl(dst.body, body.len()) != &body[..] {
        env::violation(&format!("giant input of {total} bytes: wrong result bytes in the repeated part"));
    }
    if &sl(dst.tail, tail.len())[..] != &tail[..] {
        env::violation(&format!("giant input of {total} bytes: wrong result bytes at the end"));
    }
    if sl(dst.tail, tail.len() + 4096)[tail.len()..].iter().any(|&b| b != !0x33) {
        env::violation(&format!("giant input of {total} bytes: writes beyond the result"));
    }
    x.ok += 1;
}
fn short(r: &R, want: usize) -> String {
    match r {
        R::Bytes(_, n) => format!("{n} bytes instead of {want}"),
        R::Heap(v) => format!("{} bytes", v.len()),
        o => format!("{o:?}"),
    }
}

/// A predicate on a periodic text with one altered byte (in the part of its own, at distance `d` from the end).
fn predicate(x: &mut X, op: Op, period: usize, total: usize, fill: &dyn Fn(&mut [u8], bool), bad: Option<(usize, u8)>, want: bool) {
    let k = (total - 1) / period;
    let t = total - k * period;
    let src = Map::new(k, period, t, false);
    fill(sl(src.body, period), false);
    fill(sl(src.tail, t), true);
    if let Some((d, v)) = bad {
        if d >= t {
            return;
        }
        sl(src.tail, t)[t - 1 - d] = v;
    }
    let r = call(x, op, &src, total, core::ptr::null_mut::<u8>().wrapping_add(64), 0);
    let got = matches!(r, R::Unit | R::Bool(true) | R::Str(..));
    if let R::Str(p, n) = &r {
        if *p != src.base as *const u8 || *n != total {
            env::violation(&format!("giant input of {total} bytes: a different string is returned"));
        }
    }
    if got != want {
        env::violation(&format!("giant input of {total} bytes{}: answered {got}", if bad.is_some() { " with one bad byte near the end" } else { "" }));
    }
    if got {
        x.ok += 1
    } else {
        x.err += 1
    }
}

pub fn parts(x: &mut X, prop: &str) {
    let t = x.thorough;
    let g = 1usize << 32;
    let raw = |b: &mut [u8], tail: bool| fill_pat(b, if tail { 2 } else { 0 });
    match prop {
        "C01" | "C04" | "C06" => {
            let c = match prop {
                "C01" => crate::codec::C64,
                "C04" => crate::codec::C32,
                _ => crate::codec::CHex,
            };
            let pin = match prop {
                "C01" => 3 * MB,
                "C04" => 5 * MB,
                _ => 2 * MB,
            };
            let sizes: Vec<usize> = if t { vec![g - 1, g, g + 1, g + 47, g * 3 / 4 + 5, g / 8 * 5 + 3, g / 2 + 7, 2 * g + 11] } else { vec![g + 47, g / 2 + 7] };
            for total in sizes {
                for v in 0..if t { c.variants() } else { 1 } {
                    let v = if t { v } else { (total % c.variants() as usize) as u8 };
                    let op = c.op(v, Enc);
                    transform(x, op, pin, total, &|b| {
                        let mut o = vec![];
                        ops::enc(op, b, &mut o);
                        o
                    }, &raw);
                }
                x.sample(format!("encoding of {total} bytes (periodic input)"));
            }
        }
        "C02" | "C05" | "C07" => {
            let (c, gi, go) = match prop {
                "C02" => (crate::codec::C64, 3usize, 4usize),
                "C05" => (crate::codec::C32, 5, 8),
                _ => (crate::codec::CHex, 1, 2),
            };
            let period = go * MB;
            let sizes: Vec<usize> = if t { vec![g, g + 4 * go, 2 * g + go] } else { vec![g + 4 * go] };
            for total in sizes {
                for v in 0..if t { c.dec_variants().min(2) } else { 1 } {
                    let text = move |b: &mut [u8], tail: bool| {
                        let mut r = vec![0; b.len() / go * gi];
                        // the tail ends with padding where the variant has any
                        if tail && c != crate::codec::CHex && r.len() > 1 {
                            r.pop();
                        }
                        fill_pat(&mut r, if tail { 2 } else { 0 });
                        let mut o = vec![];
                        ops::enc(c.op(v, Enc), &r, &mut o);
                        b.copy_from_slice(&o[..b.len()]);
                    };
                    let dop = c.op(v, Dec);
                    transform(x, dop, period, total, &|b| {
                        let mut o = vec![];
                        assert!(ops::dec(dop, b, &mut o));
                        o
                    }, &text);
                    let cop = c.op(v, Check);
                    predicate(x, cop, period, total, &text, None, true);
                    predicate(x, cop, period, total, &text, Some((go + 3, b'!')), false);
                    if t {
                        predicate(x, cop, period, total, &text, Some((go - 1, b'!')), false);
                        predicate(x, c.op(v, Dec), period, total, &text, Some((3, 0x80)), false);
                    }
                }
                x.sample(format!("decoding and checking a text of {total} characters"));
            }
        }
        "C03" => {
            for total in if t { vec![g + 4, g + 12] } else { vec![g + 4] } {
                let text = |b: &mut [u8], _t: bool| {
                    for (i, c) in b.iter_mut().enumerate() {
                        *c = b"QkJzWv09"[i % 8];
                    }
                };
                // decoded bytes are fewer than the destination the call insists on
                let k = (total - 1) / (4 * MB);
                let tl = total - k * 4 * MB;
                let src = Map::new(k, 4 * MB, tl, false);
                text(sl(src.body, 4 * MB), false);
                text(sl(src.tail, tl), true);
                let dst = Map::new(total / (3 * MB) + 1, 3 * MB, 4096, true);
                let mut o = vec![];
                let mut tmp = vec![];
                assert!(crate::refm::forgiving(sl(src.body, 4 * MB), &mut tmp, &mut o));
                match call(x, Op::Forg, &src, total, dst.base, total) {
                    R::Bytes(_, n) if n == total / 4 * 3 => {}
                    r => env::violation(&format!("giant forgiving input of {total}: {}", short(&r, total / 4 * 3))),
                }
                if sl(dst.body, 3 * MB)[tl..] != o[tl..] {
                    env::violation("giant forgiving input: wrong bytes");
                }
                x.ok += 1;
                // a bad character near the end
                sl(src.tail, tl)[tl - 1] = b'!';
                if !matches!(call(x, Op::Forg, &src, total, dst.base, total), R::Err) {
                    env::violation("giant forgiving input with a bad character is accepted");
                }
                x.err += 1;
                x.sample(format!("forgiving decoding of {total} characters"));
            }
            // 2^32 and more whitespace characters before a short text
            for ws in if t { vec![g, g + 1, g + 65536, 2 * g] } else { vec![g] } {
                let total = ws + 8;
                let k = (total - 1) / (4 * MB);
                let tl = total - k * 4 * MB;
                let src = Map::new(k, 4 * MB, tl, false);
                sl(src.body, 4 * MB).fill(b'\n');
                sl(src.tail, tl).fill(b' ');
                sl(src.tail, tl)[tl - 8..].copy_from_slice(b"QUJDREVG");
                let dst = Map::new(total / (4 * MB) + 1, 4 * MB, 4096, true);
                sl(dst.body, 4 * MB).fill(0);
                match call(x, Op::Forg, &src, total, dst.base, total) {
                    R::Bytes(p, 6) if unsafe { core::slice::from_raw_parts(p, 6) } == b"ABCDEF" => {}
                    r => env::violation(&format!("forgiving decoding of {ws} whitespace characters and 8 others: {}", short(&r, 6))),
                }
                x.ok += 1;
                x.sample(format!("{ws} whitespace characters before a short text"));
            }
        }
        "C10" => {
            for total in if t { vec![g, g + 1, g + 63, g + 130, 2 * g + 5] } else { vec![g + 130] } {
                let text = |b: &mut [u8], _t: bool| b.iter_mut().enumerate().for_each(|(i, c)| *c = i as u8 & 0x7f);
                for op in [Op::IsAscii, Op::FromAscii] {
                    predicate(x, op, 2 * MB, total, &text, None, true);
                    for d in if t { vec![0usize, 5, 40, 100] } else { vec![3] } {
                        predicate(x, op, 2 * MB, total, &text, Some((d, 0x80)), false);
                    }
                }
                x.sample(format!("{total} bytes"));
            }
            for total in [g, 2 * g] {
                for op in [Op::IsAscii, Op::FromAscii] {
                    predicate(x, op, 2 * MB, total, &|b, _| b.fill(0x80), None, false);
                }
            }
        }
        "C11" => {
            for n in if t { vec![g / 4 + 3, g + 9, g / 2 + 1] } else { vec![g / 4 + 3] } {
                let total = n * 4;
                let text = |b: &mut [u8], _t: bool| b.chunks_exact_mut(4).enumerate().for_each(|(i, c)| c.copy_from_slice(&(i as u32 % 0xd800).to_le_bytes()));
                predicate(x, Op::IsUtf32, 2 * MB, total, &text, None, true);
                for d in [0usize, 4, 8] {
                    // the most significant byte of a unit
                    predicate(x, Op::IsUtf32, 2 * MB, total, &text, Some((d, 0x80)), false);
                }
                x.sample(format!("{n} units"));
            }
            for n in if t { vec![g / 2, g, 2 * g] } else { vec![g / 4, g] } {
                let bad = |b: &mut [u8], _t: bool| b.chunks_exact_mut(4).for_each(|c| c.copy_from_slice(&[0, 0xd8, 0, 0]));
                predicate(x, Op::IsUtf32, 2 * MB, n * 4, &bad, None, false);
                x.sample(format!("{n} invalid units"));
            }
        }
        "C12" => {
            for (op, u) in [(Op::Swap16, 2usize), (Op::Swap32, 4)] {
                for n in if t { vec![g / u + 21, g + 21] } else { vec![g / u + 21] } {
                    transform(x, op, 2 * MB, n * u, &|b| {
                        let mut o = vec![];
                        crate::refm::swap(u, b, &mut o);
                        o
                    }, &raw);
                    x.sample(format!("{n} units of {u} bytes"));
                }
            }
        }
        _ => panic!("no giant part for {prop}"),
    }
    unsafe { env::CASE.note = "" };
}
