//! Parts that are not lane-wise: loads and stores, slices, dispatching closures, instruction-set detection, small tools.
use crate::op::*;
use crate::{hexs, violation, CUR, E, ISAS};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vsimd::bswap::{bswap_fallback, bswap_simd, BSwap};
use vsimd::isa::{InstructionSet, AVX2, NEON, SSE2, SSE41, SSSE3, WASM128};
use vsimd::native::Native;
use vsimd::SIMD256;

const PAGE: usize = 4096;
/// two readable pages; none beyond (WebAssembly: until the next call)
#[cfg(target_arch = "wasm32")]
fn arena() -> *mut u8 {
    let old = core::arch::wasm32::memory_grow(0, 1);
    assert!(old != usize::MAX);
    (((old + 1) << 16) - 2 * PAGE) as *mut u8
}
/// two readable pages between inaccessible ones
#[cfg(not(target_arch = "wasm32"))]
fn arena() -> *mut u8 {
    unsafe {
        let p = libc::mmap(core::ptr::null_mut(), 4 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let p = p.cast::<u8>().add(PAGE);
        assert!(libc::mprotect(p.cast(), 2 * PAGE, libc::PROT_READ | libc::PROT_WRITE) == 0);
        p
    }
}

pub trait Call {
    fn run<S: SIMD256>(&mut self, s: S);
}
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod arch {
    use super::*;
    #[target_feature(enable = "sse2")]
    unsafe fn c1<C: Call>(c: &mut C) {
        c.run(SSE2::new())
    }
    #[target_feature(enable = "ssse3")]
    unsafe fn c2<C: Call>(c: &mut C) {
        c.run(SSSE3::new())
    }
    #[target_feature(enable = "sse4.1")]
    unsafe fn c3<C: Call>(c: &mut C) {
        c.run(SSE41::new())
    }
    #[target_feature(enable = "avx2")]
    unsafe fn c4<C: Call>(c: &mut C) {
        c.run(AVX2::new())
    }
    pub fn call<C: Call>(isa: usize, c: &mut C) {
        unsafe { [c1::<C>, c2::<C>, c3::<C>, c4::<C>][isa](c) }
    }
}
#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
mod arch {
    use super::*;
    #[cfg(target_arch = "aarch64")]
    #[target_feature(enable = "neon")]
    unsafe fn c1<C: Call>(c: &mut C) {
        c.run(NEON::new())
    }
    #[cfg(target_arch = "wasm32")]
    #[target_feature(enable = "simd128")]
    unsafe fn c1<C: Call>(c: &mut C) {
        c.run(WASM128::new())
    }
    pub fn call<C: Call>(_isa: usize, c: &mut C) {
        unsafe { c1(c) }
    }
}
fn on<C: Call>(isa: usize, c: &mut C) {
    let r = catch_unwind(AssertUnwindSafe(|| arch::call(isa, c)));
    if let Err(e) = r {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
        violation(&format!("panicked: {m}"), "");
    }
}

struct Mem {
    n: u64,
}
impl Call for Mem {
    #[inline(always)]
    fn run<S: SIMD256>(&mut self, s: S) {
        let a = arena();
        let o = arena();
        let all = unsafe { core::slice::from_raw_parts_mut(a, 2 * PAGE) };
        for (i, b) in all.iter_mut().enumerate() {
            *b = (i * 31 + i / 256 * 7 + 1) as u8;
        }
        let out = unsafe { core::slice::from_raw_parts_mut(o, 2 * PAGE) };
        let offs: Vec<usize> = (0..130).chain(PAGE - 70..PAGE + 70).chain(2 * PAGE - 130..2 * PAGE).collect();
        for &w in &[16usize, 32] {
            for &src in &offs {
                if src + w > 2 * PAGE {
                    continue;
                }
                let mut b = Z;
                let p = all[src..].as_ptr();
                unsafe {
                    if w == 16 {
                        o1(&mut b, s.v128_load_unaligned(p));
                    } else {
                        o2(&mut b, s.v256_load_unaligned(p));
                    }
                }
                if b.0[..w] != all[src..src + w] {
                    violation(&format!("unaligned {w}-byte load at offset {src} returns {}", hexs(&b.0[..w])), "");
                }
                if p as usize % w == 0 {
                    unsafe {
                        if w == 16 {
                            o1(&mut b, s.v128_load(p));
                        } else {
                            o2(&mut b, s.v256_load(p));
                        }
                    }
                    if b.0[..w] != all[src..src + w] {
                        violation(&format!("aligned {w}-byte load at offset {src} returns {}", hexs(&b.0[..w])), "");
                    }
                    self.n += 1;
                }
                for form in 0..2 {
                    let dst = src;
                    let q = out[dst..].as_mut_ptr();
                    if form == 1 && q as usize % w != 0 {
                        continue;
                    }
                    let (lo, hi) = (dst.saturating_sub(64), (dst + w + 64).min(2 * PAGE));
                    out[lo..hi].fill(0xcc);
                    unsafe {
                        match (w, form) {
                            (16, 0) => s.v128_store_unaligned(q, v1(&b)),
                            (16, _) => s.v128_store(q, v1(&b)),
                            (_, 0) => s.v256_store_unaligned(q, v2(&b)),
                            (_, _) => s.v256_store(q, v2(&b)),
                        }
                    }
                    for i in lo..hi {
                        let want = if i >= dst && i < dst + w { b.0[i - dst] } else { 0xcc };
                        if out[i] != want {
                            violation(&format!("{w}-byte store at offset {dst}: byte {i} is {:#x} instead of {want:#x}", out[i]), "");
                        }
                    }
                    self.n += 1;
                }
                self.n += 1;
            }
        }
    }
}

struct Swap {
    n: u64,
    max: usize,
}
fn swap_one<S: SIMD256, T: BSwap>(s: S, len: usize, off: usize, same: bool, simd: bool, a: *mut u8, o: *mut u8) {
    let z = core::mem::size_of::<T>();
    let n = len * z;
    // flush against the end of the readable memory, or at an offset from its start
    let at = if off == usize::MAX { 2 * PAGE - n } else { off * z };
    unsafe {
        let sp = a.add(at);
        let dp = if same { sp } else { o.add(at) };
        let src = core::slice::from_raw_parts_mut(sp, n);
        for (i, b) in src.iter_mut().enumerate() {
            *b = (i * 37 + i / 251 + 1) as u8;
        }
        let before = src.to_vec();
        if !same {
            core::ptr::write_bytes(o, 0xcc, 2 * PAGE);
        }
        if simd {
            bswap_simd::<S, T>(s, sp.cast(), len, dp.cast());
        } else {
            bswap_fallback::<T>(sp.cast(), len, dp.cast());
        }
        let d = core::slice::from_raw_parts(dp, n);
        for i in 0..n {
            let want = before[i / z * z + z - 1 - i % z];
            if d[i] != want {
                violation(&format!("swap of {len} units of {z} bytes: byte {i} is {:#x} instead of {want:#x} (in place: {same}, vectorised: {simd})", d[i]), "");
            }
        }
        if !same {
            if core::slice::from_raw_parts(sp, n) != before {
                violation("the source changed", "");
            }
            let all = core::slice::from_raw_parts(o, 2 * PAGE);
            if let Some(i) = (0..2 * PAGE).find(|&i| (i < at || i >= at + n) && all[i] != 0xcc) {
                violation(&format!("swap of {len} units of {z} bytes writes outside the destination at {i}"), "");
            }
        }
    }
}
impl Call for Swap {
    #[inline(always)]
    fn run<S: SIMD256>(&mut self, s: S) {
        let (a, o) = (arena(), arena());
        for len in 0..self.max {
            for off in [0, 1, 2, 3, 5, 7, usize::MAX] {
                for same in [false, true] {
                    for simd in [false, true] {
                        swap_one::<S, u16>(s, len, off, same, simd, a, o);
                        swap_one::<S, u32>(s, len, off, same, simd, a, o);
                        swap_one::<S, u64>(s, len, off, same, simd, a, o);
                        self.n += 3;
                    }
                }
            }
        }
    }
}

/// a closure the compiler can vectorise; returns a value that depends on every input byte
fn work(x: &[u8]) -> u64 {
    let mut v = [0u64; 4];
    for c in x.chunks(4) {
        for (i, b) in c.iter().enumerate() {
            v[i] = v[i].wrapping_mul(31).wrapping_add(*b as u64);
        }
    }
    v[0] ^ v[1].rotate_left(11) ^ v[2].rotate_left(23) ^ v[3].rotate_left(37)
}

fn native(e: &mut E) {
    let data: Vec<u8> = (0..2000u32).map(|i| (i * i + 7) as u8).collect();
    for cap in [0u8, 1, 2, 3, 4, 255] {
        vsimd::isa::mc::CAP.store(cap, std::sync::atomic::Ordering::SeqCst);
        unsafe { CUR.0 = format!("Native, instruction sets capped at level {cap}") };
        let n = Native::detect();
        for len in 0..=data.len() {
            let mut times = 0;
            let got = n.exec(|| {
                times += 1;
                work(&data[..len])
            });
            if times != 1 {
                violation(&format!("closure run {times} times"), "");
            }
            if got != work(&data[..len]) {
                violation("closure result changed", "");
            }
            e.st.calls += 1;
            e.st.distinct += 1;
        }
        // moves its captures in and its result out, nested
        let s = String::from("moved");
        let r: Result<String, u8> = n.exec(move || Native::detect().exec(move || Ok(s + " in and out")));
        if r.as_deref() != Ok("moved in and out") {
            violation("value not passed through", "");
        }
        // panics propagate once
        #[cfg(not(target_arch = "wasm32"))]
        let r = catch_unwind(AssertUnwindSafe(|| n.exec(|| -> u32 { std::panic::panic_any(17u32) })));
        #[cfg(not(target_arch = "wasm32"))]
        if r.err().and_then(|e| e.downcast::<u32>().ok()).map(|b| *b) != Some(17) {
            violation("panic of the closure does not propagate", "");
        }
        // copies of the handle behave alike, also on other threads
        let h = n;
        #[cfg(target_arch = "wasm32")]
        let v = h.exec(|| work(&data));
        #[cfg(not(target_arch = "wasm32"))]
        let v = std::thread::scope(|sc| sc.spawn(|| h.exec(|| work(&data))).join().unwrap());
        if v != work(&data) {
            violation("closure result changed on another thread", "");
        }
        // detection
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        {
            let have = [true, true, is_x86_feature_detected!("ssse3"), is_x86_feature_detected!("sse4.1"), is_x86_feature_detected!("avx2")];
            let got = [
                vsimd::isa::detect::<vsimd::isa::Fallback>().is_some(),
                vsimd::isa::detect::<SSE2>().is_some(),
                vsimd::isa::detect::<SSSE3>().is_some(),
                vsimd::isa::detect::<SSE41>().is_some(),
                vsimd::isa::detect::<AVX2>().is_some(),
            ];
            for k in 0..5 {
                if got[k] != (have[k] && k as u8 <= cap) {
                    violation(&format!("detection of level {k} says {}", got[k]), "");
                }
            }
            if vsimd::isa::detect::<NEON>().is_some() || vsimd::isa::detect::<WASM128>().is_some() {
                violation("an instruction set of another architecture is reported as available", "");
            }
        }
        #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
        {
            let got = [
                vsimd::isa::detect::<vsimd::isa::Fallback>().is_some(),
                vsimd::isa::detect::<NEON>().is_some(),
                vsimd::isa::detect::<WASM128>().is_some(),
                vsimd::isa::detect::<SSE2>().is_some(),
                vsimd::isa::detect::<SSSE3>().is_some(),
                vsimd::isa::detect::<SSE41>().is_some(),
                vsimd::isa::detect::<AVX2>().is_some(),
            ];
            if got != [true, cfg!(target_arch = "aarch64"), cfg!(target_arch = "wasm32"), false, false, false, false] {
                violation(&format!("detection says {got:?}"), "");
            }
        }
        e.st.calls += 5;
        e.st.distinct += 5;
    }
    vsimd::isa::mc::CAP.store(255, std::sync::atomic::Ordering::SeqCst);
    // which instruction set includes which
    macro_rules! row {
        ($s:ty, $k:expr) => {
            let got = [
                vsimd::isa::matches_isa_impl::<$s, vsimd::isa::Fallback>(),
                vsimd::isa::matches_isa_impl::<$s, SSE2>(),
                vsimd::isa::matches_isa_impl::<$s, SSSE3>(),
                vsimd::isa::matches_isa_impl::<$s, SSE41>(),
                vsimd::isa::matches_isa_impl::<$s, AVX2>(),
                vsimd::isa::matches_isa_impl::<$s, NEON>(),
                vsimd::isa::matches_isa_impl::<$s, WASM128>(),
            ];
            for j in 0..7usize {
                if got[j] != (j <= $k) {
                    violation(&format!("instruction set {} claims to include {j}: {}", $k, got[j]), "");
                }
            }
            e.st.calls += 7;
        };
    }
    row!(vsimd::isa::Fallback, 0);
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        row!(SSE2, 1);
        row!(SSSE3, 2);
        row!(SSE41, 3);
        row!(AVX2, 4);
    }
    e.st.samples.push("Native::detect and exec under every cap x closures over 0..=2000 bytes; nesting, moving, panicking; detection and inclusion tables".into());
}

fn tools(e: &mut E) {
    use vsimd::tools;
    unsafe { CUR.0 = "vsimd::tools".into() };
    for n in 0..100usize {
        let v: Vec<u32> = (0..n as u32).collect();
        for chunk in 1..=40 {
            let mut seen = vec![];
            tools::unroll(&v, chunk, |&x| seen.push(x));
            if seen != v {
                violation(&format!("unroll over {n} elements by {chunk} visits {seen:?}"), "");
            }
            e.st.calls += 1;
        }
        let (p, l) = tools::slice_parts(&v);
        if p != v.as_ptr() || l != n {
            violation("slice_parts", "");
        }
        for i in 0..n {
            let mut w = v.clone();
            unsafe {
                if tools::read(v.as_ptr(), i) != i as u32 {
                    violation("read", "");
                }
                tools::write(w.as_mut_ptr(), i, 0xfeed);
            }
            if (0..n).any(|k| w[k] != if k == i { 0xfeed } else { k as u32 }) {
                violation("write", "");
            }
            e.st.calls += 2;
        }
        if n > 0 {
            unsafe {
                let mut b = tools::alloc_uninit_bytes(n);
                if b.len() != n {
                    violation("alloc_uninit_bytes: wrong length", "");
                }
                for (i, x) in b.iter_mut().enumerate() {
                    x.write(b'a' + (i % 26) as u8);
                }
                let b = tools::assume_init(b);
                let want: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
                if *b != *want {
                    violation("assume_init: content", "");
                }
                let s = tools::boxed_str(b);
                if s.as_bytes() != want {
                    violation("boxed_str: content", "");
                }
                e.st.calls += 3;
            }
        }
        // splitting a slice into aligned vectors loses nothing
        let bytes: Vec<u8> = (0..n as u8 + 70).collect();
        for off in 0..33.min(bytes.len()) {
            let (a, m, z) = vsimd::pod::align::<u8, vsimd::vector::V256>(&bytes[off..]);
            let mut all = a.to_vec();
            for x in m {
                all.extend_from_slice(x.as_bytes());
                if x as *const _ as usize % core::mem::align_of::<vsimd::vector::V256>() != 0 {
                    violation("align: unaligned middle", "");
                }
            }
            all.extend_from_slice(z);
            if all != bytes[off..] {
                violation("align: bytes lost", "");
            }
            e.st.calls += 1;
        }
    }
    if !tools::is_same_type::<u8, u8>() || tools::is_same_type::<u8, i8>() {
        violation("is_same_type", "");
    }
    let x: [u8; 8] = unsafe { tools::transmute_copy(&0x0807060504030201u64) };
    if x != [1, 2, 3, 4, 5, 6, 7, 8] {
        violation("transmute_copy", "");
    }
    for imm in 0..16u8 {
        for v in 0..=65535u16 {
            let mut a = Z;
            for i in 0..8 {
                s::<u16>(&mut a, i, v.wrapping_add(i as u16 * 0x1357));
            }
            let (l, r) = (vsimd::simulation::u16x8_shl(v1(&a), imm), vsimd::simulation::u16x8_shr(v1(&a), imm));
            let (mut bl, mut br) = (Z, Z);
            o1(&mut bl, l);
            o1(&mut br, r);
            for i in 0..8 {
                let x: u16 = g(&a, i);
                if g::<u16>(&bl, i) != x << imm || g::<u16>(&br, i) != x >> imm {
                    violation(&format!("simulation::u16x8 shift of {x:#x} by {imm}"), "");
                }
            }
            e.st.calls += 2;
        }
    }
    // the scalar classifier functions against the definition in terms of their parts
    for lut in crate::helpers::luts() {
        let (h, o) = (lut.hash.as_bytes(), lut.offset.as_bytes());
        for c in 0..=255u8 {
            let look = |t: &[u8; 16], x: u8| if x < 0x80 { t[(x & 15) as usize] } else { 0 };
            let k = ((((c >> 3) | 0xe0) as u32 + look(h, c) as u32 + 1) / 2) as u8;
            if vsimd::alsw::hash(h, c) != k {
                violation(&format!("alsw::hash({c:#x})"), "");
            }
            let off = look(o, k);
            let chk = (c as i8 as i32 + off as i8 as i32).clamp(-128, 127) as i8 as u8;
            if vsimd::alsw::check(h, o, c) != chk {
                violation(&format!("alsw::check({c:#x})"), "");
            }
            if vsimd::alsw::decode(h, o, c) != (c as u32 + off as u32 & 255) as u8 {
                violation(&format!("alsw::decode({c:#x})"), "");
            }
            e.st.calls += 3;
        }
    }
    e.st.distinct = e.st.calls;
    e.st.samples.push("slice tools for all lengths below 100, simulated shifts of all 16-bit values by all amounts, scalar classifier on all bytes".into());
}

pub fn run(e: &mut E, _prop: &str, part: &str) {
    unsafe { CUR.0 = part.to_string() };
    let isa = e.isa;
    match part {
        "mem" => {
            let mut m = Mem { n: 0 };
            on(isa, &mut m);
            e.st.calls += m.n;
            e.st.distinct += m.n;
            e.st.samples.push("loads and stores at every offset around page ends and starts, aligned and unaligned, next to inaccessible pages".into());
        }
        "slices" => {
            if isa == 0 && crate::op::NISA > 1 {
                return;
            }
            let mut m = Swap { n: 0, max: if e.thorough { 300 } else { 140 } };
            on(isa, &mut m);
            e.st.calls += m.n;
            e.st.distinct += m.n;
            e.st.samples.push("byte swap of slices: lengths 0..140 units x element sizes x offsets x in place or not x vectorised or not".into());
        }
        "native" => native(e),
        "tools" => tools(e),
        _ => crate::host::exit(64),
    }
    let _ = ISAS;
}
