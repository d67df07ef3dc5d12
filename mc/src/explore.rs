//! The explorer: places one case in guarded memory, runs the real operation, judges it against the reference.
use crate::env::{self, Arena, Place, CASE, EXPECT_PANIC, IN_CALL, PROGRESS};
use crate::ops::{self, Exp, Op, R};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

pub struct X {
    pub src: Arena,
    pub dst: Arena,
    pub out: Vec<u8>,
    pub tmp: Vec<u8>,
    pub shard: usize,
    pub nshards: usize,
    counter: usize,
    pub thorough: bool,
    /// calls of the code under test
    pub calls: u64,
    pub ok: u64,
    pub err: u64,
    pub cases: u64,
    pub bytes: u64,
    pub groups: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// check bytes around the destination
    pub canary: bool,
    pub fill: Fill,
    pub fill_pos: usize,
    /// the source lies in the destination's memory: this many bytes behind the end of the destination, or (negative,
    /// off by one) before its start
    pub near: Option<isize>,
    pub guarded_heap: bool,
    /// distinct-case bitmap (shared between all workers of one check run)
    pub seen: *mut u8,
    pub seen_mask: u64,
    pub salt: u64,
    /// digest of the results per operation, compared between configurations
    pub digest: Option<BTreeMap<u32, (Op, u64)>>,
    /// single-step the calls
    pub trace: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    /// every byte of the destination differs from the expected result before the call
    Complement,
    Zero,
    Ones,
    /// the expected result, but for the byte at `fill_pos` (if there is one)
    Near,
    /// every byte of the expected result with the bits of `fill_pos` flipped
    Flip,
    /// the expected text in the other case and the other base64 alphabet
    Twin,
    /// the input, repeated
    Input,
}

fn hash(b: &[u8]) -> u64 {
    let mut h = b.len() as u64 ^ 0x9E3779B97F4A7C15;
    for &x in b {
        h = (h.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95);
    }
    h
}

pub const CANARY: u8 = 0xC7;

impl X {
    pub fn new(cap: usize, shard: usize, nshards: usize, thorough: bool) -> X {
        let (out, tmp) = (Vec::with_capacity(cap * 2), Vec::with_capacity(cap * 2));
        let dst = Arena::new(cap * 2 + 4096, false);
        let src = Arena::new(cap, true);
        env::SRC_VIEW.store(src.view as usize, Relaxed);
        X {
            src,
            dst,
            out,
            tmp,
            shard,
            nshards,
            counter: 0,
            thorough,
            calls: 0,
            ok: 0,
            err: 0,
            cases: 0,
            bytes: 0,
            groups: BTreeMap::new(),
            samples: vec![],
            canary: false,
            fill: Fill::Complement,
            fill_pos: usize::MAX,
            near: None,
            guarded_heap: false,
            seen: core::ptr::null_mut(),
            seen_mask: 0,
            salt: 0,
            digest: None,
            trace: false,
        }
    }

    /// Deterministic work distribution: true if the next unit of work belongs to this shard.
    #[inline]
    pub fn mine(&mut self) -> bool {
        let c = self.counter;
        self.counter += 1;
        c % self.nshards == self.shard
    }

    /// Harness-side view of the source buffer.
    pub fn src_buf(&self, place: Place, len: usize) -> &'static mut [u8] {
        let off = self.src.off(place, len);
        unsafe { core::slice::from_raw_parts_mut(self.src.rw.add(off), len) }
    }

    pub fn put(&mut self, place: Place, data: &[u8]) {
        self.src_buf(place, data.len()).copy_from_slice(data);
    }

    pub fn group(&mut self, name: &str, n: u64) {
        *self.groups.entry(name.to_string()).or_insert(0) += n;
    }

    /// Runs `op` on the bytes already in the source buffer at `sp`; destination of `dl` bytes at `dp`.
    #[inline]
    pub fn run(&mut self, op: Op, sp: Place, len: usize, dp: Place, dl: usize) {
        unsafe {
            let s_off = self.src.off(sp, len);
            let input: &[u8] = core::slice::from_raw_parts(self.src.rw.add(s_off), len);
            let in_place = op.in_place();
            let dl = if in_place {
                len
            } else if op.has_dst() && !op.dst_fixed() {
                dl
            } else {
                op.fixed_dst(len)
            };
            let d_off = self.dst.off(dp, dl);
            let dview = self.dst.view.add(d_off);

            let exp = ops::expect(op, input, dl, &mut self.out, &mut self.tmp);
            let need = if exp == Exp::Bytes { self.out.len() } else { 0 };

            if in_place {
                core::ptr::copy_nonoverlapping(input.as_ptr(), dview, len);
            } else {
                match self.fill {
                    Fill::Complement => {
                        let k = need.min(dl);
                        for i in 0..k {
                            *dview.add(i) = !*self.out.get_unchecked(i);
                        }
                        core::ptr::write_bytes(dview.add(k), 0x5A, dl - k);
                    }
                    Fill::Zero => core::ptr::write_bytes(dview, 0, dl),
                    Fill::Ones => core::ptr::write_bytes(dview, 0xff, dl),
                    Fill::Near => {
                        let k = need.min(dl);
                        core::ptr::copy_nonoverlapping(self.out.as_ptr(), dview, k);
                        core::ptr::write_bytes(dview.add(k), 0x5A, dl - k);
                        if self.fill_pos < k {
                            *dview.add(self.fill_pos) ^= 1;
                        }
                    }
                    Fill::Flip | Fill::Twin => {
                        let k = need.min(dl);
                        for i in 0..k {
                            let c = *self.out.get_unchecked(i);
                            *dview.add(i) = match (self.fill, c) {
                                (Fill::Flip, _) => c ^ self.fill_pos as u8,
                                (_, b'+') => b'-',
                                (_, b'-') => b'+',
                                (_, b'/') => b'_',
                                (_, b'_') => b'/',
                                (_, c) if c.is_ascii_alphabetic() => c ^ 0x20,
                                (_, c) => c,
                            };
                        }
                        core::ptr::write_bytes(dview.add(k), 0x5A, dl - k);
                    }
                    Fill::Input => {
                        for i in 0..dl {
                            *dview.add(i) = if len == 0 { 0 } else { input[i % len] };
                        }
                    }
                }
            }
            let (mut c_lo, mut c_hi) = (0, 0);
            if self.canary {
                c_lo = d_off.min(128);
                c_hi = (self.dst.cap - d_off - dl).min(128);
                core::ptr::write_bytes(dview.sub(c_lo), CANARY, c_lo);
                core::ptr::write_bytes(dview.add(dl), CANARY, c_hi);
            }

            let mut sview = self.src.view.add(s_off);
            if let Some(g) = self.near {
                sview = if g >= 0 { dview.add(dl + g as usize) } else { dview.sub(len + (-1 - g) as usize) };
                core::ptr::copy_nonoverlapping(input.as_ptr(), sview, len);
            }
            #[allow(static_mut_refs)]
            {
                CASE.op = op;
                CASE.src = input.as_ptr();
                CASE.src_len = len;
                CASE.src_off = s_off;
                CASE.dst_len = dl;
                CASE.dst_off = d_off;
            }
            PROGRESS.fetch_add(1, Relaxed);
            self.mark(op, input, s_off, d_off, dl);
            self.cases += 1;
            self.calls += 1;
            self.bytes += len as u64;

            if exp == Exp::Panic {
                self.err += 1;
                if cfg!(target_arch = "wasm32") {
                    // a panic ends the program there
                    return;
                }
                EXPECT_PANIC.store(true, Relaxed);
                IN_CALL.store(true, Relaxed);
                let r = std::panic::catch_unwind(|| ops::exec(op, sview, len, dview, dl));
                IN_CALL.store(false, Relaxed);
                EXPECT_PANIC.store(false, Relaxed);
                if r.is_ok() {
                    env::violation("returns although the documentation promises a panic (destination too short)");
                }
                self.check_canary(dview, dl, c_lo, c_hi);
                return;
            }
            if self.guarded_heap {
                env::EF_ON.store(true, Relaxed);
            }
            #[cfg(vsimd_asan)]
            self.fences(s_off, len, d_off, dl, in_place, true);
            IN_CALL.store(true, Relaxed);
            #[cfg(target_arch = "x86_64")]
            if self.trace {
                crate::trace::start();
            }
            let r = ops::exec(op, sview, len, dview, dl);
            #[cfg(target_arch = "x86_64")]
            if self.trace {
                crate::trace::stop();
            }
            IN_CALL.store(false, Relaxed);
            #[cfg(vsimd_asan)]
            self.fences(s_off, len, d_off, dl, in_place, false);
            if self.guarded_heap {
                env::EF_ON.store(false, Relaxed);
            }
            self.check_canary(dview, dl, c_lo, c_hi);
            if self.near.is_some() && core::slice::from_raw_parts(sview, len) != input {
                env::violation("changes the source, which lies next to the destination");
            }
            if let Some(d) = &mut self.digest {
                let v: u64 = match &r {
                    R::Err => 1,
                    R::Unit => 2,
                    R::Bool(b) => 3 + *b as u64,
                    R::Len(n) => (*n as u64).wrapping_add(1 << 40),
                    R::Str(..) => 5,
                    R::Bytes(p, n) => hash(core::slice::from_raw_parts(*p, *n)),
                    R::Heap(v) => hash(v),
                };
                let e = d.entry(op.code()).or_insert((op, 0));
                e.1 = (e.1.rotate_left(7) ^ v).wrapping_mul(0x517cc1b727220a95);
            }
            self.judge(exp, r, op, s_off, len, dview, dl);
        }
    }

    #[cfg(vsimd_asan)]
    unsafe fn fences(&self, s_off: usize, len: usize, d_off: usize, dl: usize, in_place: bool, on: bool) {
        // the source view of an operation that works in place is not to be touched at all
        let s = if in_place { 0 } else { len };
        env::asan::fence(self.src.view, self.src.view.add(self.src.cap), self.src.view.add(s_off), s, on);
        env::asan::fence(self.dst.view, self.dst.view.add(self.dst.cap), self.dst.view.add(d_off), dl, on);
    }

    /// Records the case in the distinct-case bitmap; empty inputs count as trivial.
    #[inline]
    pub unsafe fn mark(&mut self, op: Op, input: &[u8], so: usize, d: usize, dl: usize) {
        if self.seen.is_null() || input.is_empty() {
            return;
        }
        let code = op.code();
        let mut h = self.salt ^ (code as u64) << 40 ^ (so as u64) << 20 ^ (d as u64) ^ (dl as u64).rotate_left(45) ^ (self.fill as u64).rotate_left(60) ^ (self.fill_pos as u64).wrapping_mul(0xD6E8FEB86659FD93) ^ (self.near.unwrap_or(isize::MIN) as u64).wrapping_mul(0xD1B54A32D192ED03);
        const K: u64 = 0x517cc1b727220a95;
        h = (h ^ h >> 29).wrapping_mul(K);
        let mut c = input.chunks_exact(8);
        for w in &mut c {
            h = (h.rotate_left(5) ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(K);
        }
        for &b in c.remainder() {
            h = (h.rotate_left(5) ^ b as u64).wrapping_mul(K);
        }
        h ^= h >> 32;
        h = h.wrapping_mul(0xD6E8FEB86659FD93);
        h ^= h >> 32;
        let bit = h & self.seen_mask;
        let p = &*(self.seen.add((bit >> 3) as usize) as *const std::sync::atomic::AtomicU8);
        let m = 1u8 << (bit & 7);
        if p.load(Relaxed) & m == 0 {
            p.fetch_or(m, Relaxed);
        }
    }

    #[inline]
    unsafe fn check_canary(&self, dview: *mut u8, dl: usize, lo: usize, hi: usize) {
        if self.canary {
            for i in 1..=lo {
                if *dview.sub(i) != CANARY {
                    env::violation(&format!("writes outside the destination: {i} byte(s) before its start"));
                }
            }
            for i in 0..hi {
                if *dview.add(dl + i) != CANARY {
                    env::violation(&format!("writes outside the destination: {i} byte(s) after its end"));
                }
            }
        }
    }

    #[inline]
    unsafe fn judge(&mut self, exp: Exp, r: R, op: Op, s_off: usize, len: usize, dview: *mut u8, dl: usize) {
        match (exp, &r) {
            (Exp::Bytes, R::Bytes(p, n)) => {
                let n = *n;
                if n != self.out.len() {
                    self.wrong(exp, &r);
                }
                if *p != dview as *const u8 && n != 0 {
                    env::violation("result slice does not start at the destination");
                }
                if n > dl {
                    env::violation("result slice is longer than the destination");
                }
                if core::slice::from_raw_parts(*p, n) != &self.out[..] {
                    self.wrong(exp, &r);
                }
                self.ok += 1;
            }
            (Exp::Bytes, R::Heap(v)) => {
                if v != &self.out {
                    self.wrong(exp, &r);
                }
                self.ok += 1;
            }
            (Exp::Err, R::Err) => self.err += 1,
            (Exp::Unit, R::Unit) => self.ok += 1,
            (Exp::Bool(a), R::Bool(b)) => {
                if a != *b {
                    self.wrong(exp, &r);
                }
                if a {
                    self.ok += 1
                } else {
                    self.err += 1
                }
            }
            (Exp::Len(a), R::Len(b)) if a == *b => self.ok += 1,
            (Exp::SameStr, R::Str(p, n)) => {
                if *p != self.src.view.add(s_off) as *const u8 || *n != len {
                    env::violation("from_ascii returns a different slice");
                }
                self.ok += 1;
            }
            (Exp::NoStr, R::Err) => self.err += 1,
            (Exp::Any, _) => self.ok += 1,
            _ => self.wrong(exp, &r),
        }
        let _ = op;
        drop(r);
    }

    fn wrong(&self, exp: Exp, r: &R) -> ! {
        let show = |b: &[u8]| {
            if b.len() <= 400 {
                env::hex(b)
            } else {
                format!("({} bytes) {}..", b.len(), env::hex(&b[..64]))
            }
        };
        let got = unsafe {
            match r {
                R::Bytes(p, n) => format!("bytes {}", show(core::slice::from_raw_parts(*p, (*n).min(1 << 24)))),
                R::Heap(v) => format!("bytes {}", show(v)),
                R::Str(..) => "a string".to_string(),
                o => format!("{o:?}"),
            }
        };
        let want = match exp {
            Exp::Bytes => format!("bytes {}", show(&self.out)),
            o => format!("{o:?}"),
        };
        env::violation(&format!("wrong result: expected {want}, got {got}"));
    }

    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 4 {
            self.samples.push(s);
        }
    }

    pub fn report(&self) {
        use std::fmt::Write;
        let mut g = String::new();
        for (i, (k, v)) in self.groups.iter().enumerate() {
            let _ = write!(g, "{}{}:{}", if i > 0 { "," } else { "" }, env::jstr(k), v);
        }
        let mut dg = String::new();
        if let Some(d) = &self.digest {
            for (i, (op, v)) in d.values().enumerate() {
                let _ = write!(dg, "{}{}:\"{:016x}\"", if i > 0 { "," } else { "" }, env::jstr(&op.name()), v);
            }
        }
        let s: Vec<String> = self.samples.iter().map(|s| env::jstr(s)).collect();
        let line = format!(
            "STAT {{\"cases\":{},\"calls\":{},\"accepted\":{},\"rejected\":{},\"bytes\":{},\"groups\":{{{}}},\"samples\":[{}],\"digests\":{{{}}}}}\n",
            self.cases,
            self.calls,
            self.ok,
            self.err,
            self.bytes,
            g,
            s.join(","),
            dg
        );
        env::write_all(1, line.as_bytes());
    }
}
