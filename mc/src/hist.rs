//! C15 (append histories) and C21 (independence of the call history).
use crate::calls::{self, Call, Out};
use crate::env::{self, PROGRESS};
use crate::explore::X;
use crate::ops;
use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;

// ------------------------------------------------------------------------------------------ C15
#[cfg(feature = "alloc")]
pub mod append {
    use super::*;
    use crate::codec::{canonical, fill_pat, Codec};
    use hex_simd::AsciiCase;

    #[derive(Clone, Debug, PartialEq)]
    enum A {
        Enc64(u8, usize),
        Enc32(u8, usize),
        EncHex(bool, usize),
        /// codec, variant, text, decoded (None: rejected)
        Dec(u8, u8, Vec<u8>, Option<Vec<u8>>),
        Push,
        Reserve(usize),
        ReserveExact(usize),
        Shrink,
        Clear,
        TruncHalf,
    }
    impl A {
        fn name(&self) -> String {
            match self {
                A::Dec(c, v, t, d) => format!("decode_append(codec {c} variant {v}, {} chars{})", t.len(), if d.is_none() { ", invalid" } else { "" }),
                o => format!("{o:?}"),
            }
        }
    }

    fn input(n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        fill_pat(&mut v, 2);
        v
    }

    fn alphabet(string: bool, thorough: bool) -> Vec<A> {
        let mut r = vec![];
        let sizes: &[usize] = if thorough && string { &[0, 1, 2, 5, 33] } else if thorough { &[0, 1, 2, 5, 16, 33, 50] } else { &[0, 1, 5, 33] };
        for &n in sizes {
            r.push(A::Enc64((n % 4) as u8, n));
            r.push(A::Enc32((n % 4) as u8, n));
            r.push(A::EncHex(n % 2 == 1, n));
        }
        if !string {
            for (c, codec) in [Codec::C64, Codec::C32, Codec::CHex].into_iter().enumerate() {
                for (k, &n) in sizes.iter().enumerate() {
                    let v = if c == 2 { 0 } else { (k % 4) as u8 };
                    let s = canonical(codec, v, n, 2);
                    r.push(A::Dec(c as u8, v, s.clone(), Some(input(n))));
                    if n >= 5 {
                        // invalid at the start, at the end
                        let mut b = s.clone();
                        b[0] = b'!';
                        r.push(A::Dec(c as u8, v, b, None));
                        let mut b = s.clone();
                        let at = s.iter().position(|&q| q == b'=').unwrap_or(s.len()) - 1;
                        b[at] = b'!';
                        r.push(A::Dec(c as u8, v, b, None));
                        // bad length
                        let mut b = s;
                        b.push(b'A');
                        let mut o = vec![];
                        let ok = ops::dec(codec.op(v, ops::Dec), &b, &mut o);
                        r.push(A::Dec(c as u8, v, b, if ok { Some(o) } else { None }));
                    }
                }
            }
        }
        r.extend([A::Push, A::Reserve(1), A::ReserveExact(41), A::Shrink, A::Clear, A::TruncHalf]);
        r
    }

    /// One transition on the real vector; returns the model's content.
    fn step_vec(v: &mut Vec<u8>, a: &A, model: &mut Vec<u8>) {
        let mut o = vec![];
        match a {
            A::Enc64(k, n) => {
                let i = input(*n);
                crate::refm::b64_encode(*k, &i, &mut o);
                model.extend_from_slice(&o);
                call(|| ops::B64V[*k as usize].encode_append(&i, v));
            }
            A::Enc32(k, n) => {
                let i = input(*n);
                crate::refm::b32_encode(*k, &i, &mut o);
                model.extend_from_slice(&o);
                call(|| ops::B32V[*k as usize].encode_append(&i, v));
            }
            A::EncHex(u, n) => {
                let i = input(*n);
                crate::refm::hex_encode(*u, &i, &mut o);
                model.extend_from_slice(&o);
                call(|| hex_simd::encode_append(&i, v, if *u { AsciiCase::Upper } else { AsciiCase::Lower }));
            }
            A::Dec(c, k, t, d) => {
                let ok = call(|| match c {
                    0 => ops::B64V[*k as usize].decode_append(t, v).is_ok(),
                    1 => ops::B32V[*k as usize].decode_append(t, v).is_ok(),
                    _ => hex_simd::decode_append(t, v).is_ok(),
                });
                if ok != d.is_some() {
                    env::violation(&format!("decode_append {} a text that should be {}", if ok { "accepts" } else { "rejects" }, if ok { "rejected" } else { "accepted" }));
                }
                if let Some(d) = d {
                    model.extend_from_slice(d);
                }
            }
            A::Push => {
                v.push(0xEE);
                model.push(0xEE);
            }
            A::Reserve(n) => v.reserve(*n),
            A::ReserveExact(n) => v.reserve_exact(*n),
            A::Shrink => v.shrink_to_fit(),
            A::Clear => {
                v.clear();
                model.clear();
            }
            A::TruncHalf => {
                v.truncate(model.len() / 2);
                model.truncate(model.len() / 2);
            }
        }
    }
    fn step_string(v: &mut String, a: &A, model: &mut Vec<u8>) {
        let mut o = vec![];
        match a {
            A::Enc64(k, n) => {
                let i = input(*n);
                crate::refm::b64_encode(*k, &i, &mut o);
                model.extend_from_slice(&o);
                call(|| ops::B64V[*k as usize].encode_append(&i, v));
            }
            A::Enc32(k, n) => {
                let i = input(*n);
                crate::refm::b32_encode(*k, &i, &mut o);
                model.extend_from_slice(&o);
                call(|| ops::B32V[*k as usize].encode_append(&i, v));
            }
            A::EncHex(u, n) => {
                let i = input(*n);
                crate::refm::hex_encode(*u, &i, &mut o);
                model.extend_from_slice(&o);
                call(|| hex_simd::encode_append(&i, v, if *u { AsciiCase::Upper } else { AsciiCase::Lower }));
            }
            A::Dec(..) => unreachable!(),
            A::Push => {
                v.push('\u{e9}');
                model.extend_from_slice("\u{e9}".as_bytes());
            }
            A::Reserve(n) => v.reserve(*n),
            A::ReserveExact(n) => v.reserve_exact(*n),
            A::Shrink => v.shrink_to_fit(),
            A::Clear => {
                v.clear();
                model.clear();
            }
            A::TruncHalf => {
                let mut n = model.len() / 2;
                while !v.is_char_boundary(n) {
                    n -= 1;
                }
                v.truncate(n);
                model.truncate(n);
            }
        }
    }
    fn call<T>(f: impl FnOnce() -> T) -> T {
        env::IN_CALL.store(true, Relaxed);
        PROGRESS.fetch_add(1, Relaxed);
        let r = f();
        env::IN_CALL.store(false, Relaxed);
        r
    }

    pub fn explore(x: &mut X, string: bool, mode: usize) {
        env::EF_MODE.store(mode, Relaxed);
        let t = x.thorough;
        let alpha = alphabet(string, t);
        let depth = if string { 6 } else { 5 };
        let max_content = 200;
        // state: (content, capacity); visited states are kept as 128-bit fingerprints
        let mut seen: HashSet<u128> = HashSet::new();
        let mut frontier: Vec<(Vec<u8>, usize, Vec<u16>)> = vec![];
        let caps: &[usize] = &[0, 1, 7, 64, 120];
        for &c in caps {
            let content = vec![];
            seen.insert(print(&content, c));
            frontier.push((content, c, vec![]));
        }
        let mut transitions = 0u64;
        let mut outcomes = 0u64;
        let mut cut = 0u64;
        let mut last: Option<(Vec<u8>, usize, Vec<u16>)> = None;
        for d in 0..depth {
            let mut next = vec![];
            let mut fresh = 0u64;
            for (content, cap, path) in frontier {
                for (ai, a) in alpha.iter().enumerate() {
                    let mut model = content.clone();
                    // the history, for a report
                    let note: String;
                    unsafe {
                        if x.calls % 64 == 0 {
                            env::CASE.op = ops::Op::B64(0, ops::EncAppVec);
                        }
                        env::CASE.src = content.as_ptr();
                        env::CASE.src_len = content.len();
                        env::CASE.dst_len = cap;
                    }
                    HIST.with(|h| {
                        let mut h = h.borrow_mut();
                        h.0.clear();
                        h.0.extend_from_slice(&path);
                        h.0.push(ai as u16);
                    });
                    note = String::new();
                    drop(note);
                    env::EF_ON.store(true, Relaxed);
                    let live = env::EF_LIVE.load(Relaxed);
                    let key;
                    if string {
                        let mut v = String::with_capacity(cap);
                        v.push_str(std::str::from_utf8(&content).unwrap());
                        assert!(v.capacity() == cap, "capacity model");
                        env::EF_ON.store(false, Relaxed);
                        // the model's own memory must not come from the guarded heap: run the step with it on
                        let mut m2 = model.clone();
                        m2.reserve(600);
                        env::EF_ON.store(true, Relaxed);
                        step_string(&mut v, a, &mut m2);
                        env::EF_ON.store(false, Relaxed);
                        model = m2;
                        if v.as_bytes() != &model[..] || std::str::from_utf8(v.as_bytes()).is_err() {
                            bad(&alpha, &content, &model, v.as_bytes());
                        }
                        key = (model.clone(), v.capacity());
                        env::EF_ON.store(true, Relaxed);
                        let room = v.capacity() - v.len();
                        for _ in 0..=room.min(300) {
                            v.push('z');
                        }
                        env::EF_ON.store(false, Relaxed);
                        if &v.as_bytes()[..model.len()] != &model[..] {
                            bad(&alpha, &content, &model, v.as_bytes());
                        }
                        drop(v);
                    } else {
                        let mut v: Vec<u8> = Vec::with_capacity(cap);
                        v.extend_from_slice(&content);
                        assert!(v.capacity() == cap, "capacity model");
                        env::EF_ON.store(false, Relaxed);
                        let mut m2 = model.clone();
                        m2.reserve(600);
                        env::EF_ON.store(true, Relaxed);
                        step_vec(&mut v, a, &mut m2);
                        env::EF_ON.store(false, Relaxed);
                        model = m2;
                        if v != model {
                            bad(&alpha, &content, &model, &v);
                        }
                        key = (model.clone(), v.capacity());
                        env::EF_ON.store(true, Relaxed);
                        let room = v.capacity() - v.len();
                        for _ in 0..=room.min(300) {
                            v.push(b'z');
                        }
                        env::EF_ON.store(false, Relaxed);
                        if &v[..model.len()] != &model[..] {
                            bad(&alpha, &content, &model, &v);
                        }
                        drop(v);
                    }
                    if env::EF_LIVE.load(Relaxed) != live {
                        env::violation("memory still allocated after the buffer was dropped");
                    }
                    transitions += 1;
                    x.calls += 1;
                    if let A::Dec(_, _, _, None) = a {
                        outcomes += 1;
                    }
                    if seen.insert(print(&key.0, key.1)) {
                        fresh += 1;
                        if d + 1 == depth {
                            if last.is_none() || fresh % 65536 == 0 {
                                let mut p = path.clone();
                                p.push(ai as u16);
                                last = Some((key.0, key.1, p));
                            }
                        } else if key.0.len() <= max_content {
                            let mut p = path.clone();
                            p.push(ai as u16);
                            next.push((key.0, key.1, p));
                        } else {
                            cut += 1;
                        }
                    }
                }
            }
            x.group(&format!("states first reached at depth {}", d + 1), fresh);
            frontier = next;
        }
        x.cases += transitions;
        x.ok += transitions - outcomes;
        x.err += outcomes;
        x.group("states", seen.len() as u64);
        x.group("transitions", transitions);
        x.group("distinct", transitions);
        x.group("failed appends", outcomes);
        x.group("states beyond the content bound (not expanded)", cut);
        let last = last.as_ref().map(|(c, cap, p)| {
            format!(
                "history {:?} ends with {} bytes, capacity {cap}: {}",
                p.iter().map(|&i| alpha[i as usize].name()).collect::<Vec<_>>(),
                c.len(),
                env::hex(&c[..c.len().min(40)])
            )
        });
        if let Some(s) = last {
            x.sample(s);
        }
        x.sample(format!("alphabet of {} operations, depth {depth}, initial capacities {caps:?}, content bound {max_content}", alpha.len()));
    }
    /// Every (content length, spare capacity, appended length, operation): the appended text follows the content, also
    /// after a second append; failed decodings leave the content.
    pub fn grid(x: &mut X, string: bool, mode: usize) {
        env::EF_MODE.store(mode, Relaxed);
        let t = x.thorough;
        let mut olds: Vec<usize> = vec![0, 1, 3, 8, 31, 64, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 300_001];
        let mut news: Vec<usize> = (0..=if t { 300 } else { 130 }).chain([191, 192, 193, 255, 256, 257, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 1535, 1536, 2047, 2048, 3071, 3072, 3073, 4095, 4096, 4097, 6144, 8191, 8192, 12288, 16384, 20000, 32767, 32768, 49152, 65535, 65536, 65537, 100_000]).collect();
        if t {
            olds.extend([2, 7, 16, 33, 512, 2048, 8192, 16384, 131072, 1 << 20]);
            news.extend([131071, 131072, 200_000, 262144, 300_000]);
        }
        news.sort();
        news.dedup();
        for &m in &olds {
            for &n in &news {
                if !x.mine() || (!t && m > 300 && n > 300 && (m + n) % 3 != 0 && m % 256 > 1) {
                    continue;
                }
                let big = n > 300;
                let inp = input(n);
                for kind in 0..6usize {
                    if string && kind > 2 {
                        continue;
                    }
                    let codec = [Codec::C64, Codec::C32, Codec::CHex][kind % 3];
                    let nv = if codec == Codec::CHex { 2 } else { 4 };
                    let v = ((n + m) % nv) as u8;
                    let text = canonical(codec, v, n, 2);
                    // what is appended, the outcome
                    let mut cases: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
                    if kind < 3 {
                        let mut o = vec![];
                        ops::enc(codec.op(v, ops::Enc), &inp, &mut o);
                        cases.push((inp.clone(), Some(o)));
                    } else {
                        cases.push((text.clone(), Some(inp.clone())));
                        let body = text.iter().position(|&q| q == b'=').unwrap_or(text.len());
                        for at in if body == 0 { vec![] } else if big { vec![body - 1, body / 2] } else { vec![0, body / 2, body - 1] } {
                            let mut b = text.clone();
                            b[at] = b'!';
                            cases.push((b, None));
                        }
                        let mut b = text.clone();
                        b.push(b'!');
                        cases.push((b, None));
                    }
                    for (arg, want) in cases {
                        let need = want.as_ref().map_or(n, |w| w.len());
                        let mut spares = vec![0, need, need + 1, need + 70];
                        if need > 0 {
                            spares.extend([need - 1, need / 2]);
                        }
                        spares.sort();
                        spares.dedup();
                        for (si, sp) in spares.into_iter().enumerate() {
                            if big && !t && (si + n) % 2 == 0 && m > 300 {
                                continue;
                            }
                            let cap = m + sp;
                            unsafe {
                                env::CASE.op = codec.op(v, if kind < 3 { ops::EncAppVec } else { ops::DecAppVec });
                                env::CASE.src = arg.as_ptr();
                                env::CASE.src_len = arg.len();
                                env::CASE.dst_len = cap;
                                env::CASE.note = "append to a buffer; destination size = its capacity";
                            }
                            let case = if v == 1 { AsciiCase::Upper } else { AsciiCase::Lower };
                            let go = |v8: &mut Vec<u8>, s8: &mut String| -> bool {
                                call(|| {
                                    match (kind, string) {
                                        (0, true) => ops::B64V[v as usize].encode_append(&arg, s8),
                                        (1, true) => ops::B32V[v as usize].encode_append(&arg, s8),
                                        (2, true) => hex_simd::encode_append(&arg, s8, case),
                                        (0, _) => ops::B64V[v as usize].encode_append(&arg, v8),
                                        (1, _) => ops::B32V[v as usize].encode_append(&arg, v8),
                                        (2, _) => hex_simd::encode_append(&arg, v8, case),
                                        (3, _) => return ops::B64V[v as usize].decode_append(&arg, v8).is_ok(),
                                        (4, _) => return ops::B32V[v as usize].decode_append(&arg, v8).is_ok(),
                                        _ => return hex_simd::decode_append(&arg, v8).is_ok(),
                                    }
                                    true
                                })
                            };
                            let live = env::EF_LIVE.load(Relaxed);
                            env::EF_ON.store(true, Relaxed);
                            let mut s8 = String::new();
                            let mut v8: Vec<u8> = vec![];
                            if string {
                                s8 = String::with_capacity(cap);
                                s8.extend(std::iter::repeat('~').take(m));
                            } else {
                                v8 = Vec::with_capacity(cap);
                                v8.resize(m, b'~');
                            }
                            for round in 0..2usize {
                                let ok = go(&mut v8, &mut s8);
                                let (got, c): (&[u8], usize) = if string { (s8.as_bytes(), s8.capacity()) } else { (&v8, v8.capacity()) };
                                env::EF_ON.store(false, Relaxed);
                                if ok != want.is_some() {
                                    env::violation(&format!("append {}s although it should {}", if ok { "succeed" } else { "fail" }, if ok { "fail" } else { "succeed" }));
                                }
                                let w: &[u8] = want.as_deref().unwrap_or(&[]);
                                if got.len() != m + (round + 1) * w.len() || c < got.len() {
                                    env::violation(&format!("appending {} bytes to {} gives {} bytes", w.len(), m + round * w.len(), got.len()));
                                }
                                if got[..m].iter().any(|&b| b != b'~') {
                                    env::violation(&format!("append {} of {} bytes alters the {m} bytes before", round + 1, w.len()));
                                }
                                if w.len() > 0 && got[m..].chunks(w.len()).any(|g| g != w) {
                                    env::violation(&format!("append {} of {} bytes to {m}: wrong bytes", round + 1, w.len()));
                                }
                                x.calls += 1;
                                if ok {
                                    x.ok += 1
                                } else {
                                    x.err += 1
                                }
                                env::EF_ON.store(true, Relaxed);
                            }
                            drop(s8);
                            drop(v8);
                            env::EF_ON.store(false, Relaxed);
                            if env::EF_LIVE.load(Relaxed) != live {
                                env::violation("memory still allocated after the buffer was dropped");
                            }
                            x.cases += 1;
                            x.group("distinct", 1);
                        }
                    }
                }
            }
        }
        unsafe { env::CASE.note = "" };
        x.sample(format!("{} content lengths up to {} x {} appended lengths up to {} x spare capacities around what is needed, twice in a row", olds.len(), olds[olds.len() - 1], news.len(), news[news.len() - 1]));
    }
    fn print(content: &[u8], cap: usize) -> u128 {
        let (mut a, mut b) = (0xcbf29ce484222325u64 ^ cap as u64, 0x9E3779B97F4A7C15u64.wrapping_add((cap as u64) << 32 | content.len() as u64));
        for &x in content {
            a = (a ^ x as u64).wrapping_mul(0x100000001b3);
            b = (b.rotate_left(7) ^ x as u64).wrapping_mul(0xD1B54A32D192ED03);
        }
        (a as u128) << 64 | (b ^ b >> 31) as u128
    }
    thread_local! {
        static HIST: std::cell::RefCell<(Vec<u16>,)> = const { std::cell::RefCell::new((Vec::new(),)) };
    }
    fn bad(alpha: &[A], before: &[u8], want: &[u8], got: &[u8]) -> ! {
        let h: Vec<String> = HIST.with(|h| h.borrow().0.iter().map(|&i| alpha[i as usize].name()).collect());
        env::violation(&format!(
            "after the history {h:?} the buffer holds {} instead of {} (before the last operation: {})",
            env::hex(got),
            env::hex(want),
            env::hex(before)
        ))
    }
}

// ------------------------------------------------------------------------------------------ C21
/// A de Bruijn sequence of order n over k symbols: every history of n calls occurs as a window.
pub fn de_bruijn(k: usize, n: usize, f: &mut dyn FnMut(usize)) {
    // iterative Lyndon word generation (Fredricksen, Kessler, Maiorana)
    let mut w: Vec<usize> = vec![0];
    if n % 1 == 0 {
        f(0);
    }
    loop {
        // next Lyndon word of length <= n
        let mut x = w.clone();
        let m = x.len();
        while x.len() < n {
            let v = x[x.len() - m];
            x.push(v);
        }
        while let Some(&l) = x.last() {
            if l == k - 1 {
                x.pop();
            } else {
                break;
            }
        }
        if x.is_empty() {
            break;
        }
        *x.last_mut().unwrap() += 1;
        w = x;
        if n % w.len() == 0 {
            for &s in &w {
                f(s);
            }
        }
    }
    // wrap around
    for _ in 0..n - 1 {
        f(0);
    }
}

pub struct Runner {
    pub calls: Vec<Call>,
    src: Vec<*const u8>,
    dst: Vec<*mut u8>,
    pub recent: [usize; 8],
}
impl Runner {
    pub fn new(x: &X, calls: Vec<Call>) -> Runner {
        let (mut so, mut d) = (0usize, 0usize);
        let mut src = vec![];
        let mut dst = vec![];
        for (i, c) in calls.iter().enumerate() {
            let (s, dl) = c.space();
            // vary the alignment within what the unit allows
            so = (so + 63) / 64 * 64 + (i % 16) / c.op().align() * c.op().align();
            d = (d + 63) / 64 * 64 + (i % 8) / c.op().align() * c.op().align();
            unsafe {
                core::ptr::copy_nonoverlapping(c.input.as_ptr(), x.src.rw.add(so), s);
                src.push(x.src.view.add(so) as *const u8);
                dst.push(x.dst.view.add(d));
            }
            so += s;
            d += dl;
            assert!(so < x.src.cap && d < x.dst.cap);
        }
        Runner { calls, src, dst, recent: [usize::MAX; 8] }
    }
    fn set_case(&self, i: usize) {
        let c = &self.calls[i];
        #[allow(static_mut_refs)]
        unsafe {
            env::CASE.op = c.op();
            env::CASE.src = c.input.as_ptr();
            env::CASE.src_len = c.input.len();
            env::CASE.dst_len = c.dst_len();
        }
    }
    fn history(&self) -> String {
        let h: Vec<&str> = self.recent.iter().filter(|&&i| i != usize::MAX).map(|&i| self.calls[i].name.as_str()).collect();
        h.join(" -> ")
    }
    /// Makes call i and judges it.
    #[inline]
    pub fn go(&mut self, i: usize) {
        self.recent.rotate_left(1);
        self.recent[7] = i;
        self.set_case(i);
        PROGRESS.fetch_add(1, Relaxed);
        let c = &self.calls[i];
        unsafe {
            c.prepare(self.dst[i]);
            if c.panics() {
                env::EXPECT_PANIC.store(true, Relaxed);
                env::IN_CALL.store(true, Relaxed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(c.raw(self.src[i], self.dst[i]))));
                env::IN_CALL.store(false, Relaxed);
                env::EXPECT_PANIC.store(false, Relaxed);
                if r.is_ok() {
                    env::violation(&format!("documented panic missing after the history {}", self.history()));
                }
                return;
            }
            env::IN_CALL.store(true, Relaxed);
            let r = c.raw(self.src[i], self.dst[i]);
            env::IN_CALL.store(false, Relaxed);
            if !c.right(&r, self.src[i]) {
                let got = c.outcome(r, self.src[i]);
                env::violation(&format!("after the history {} the last call returns {} instead of {}", self.history(), got.show(), c.want.show()));
            }
        }
    }
    /// Fixes what unspecified results must be (the answer of a fresh process).
    pub fn pin_any(&mut self) {
        for i in 0..self.calls.len() {
            if self.calls[i].want != Out::Any {
                continue;
            }
            // ask a fresh process
            unsafe {
                let mut fds = [0i32; 2];
                assert!(libc::pipe(fds.as_mut_ptr()) == 0);
                let pid = libc::fork();
                if pid == 0 {
                    let c = &self.calls[i];
                    c.prepare(self.dst[i]);
                    let o = c.outcome(c.raw(self.src[i], self.dst[i]), self.src[i]);
                    let v: u64 = match o {
                        Out::Len(n) => n as u64,
                        _ => u64::MAX,
                    };
                    libc::write(fds[1], v.to_le_bytes().as_ptr().cast(), 8);
                    libc::_exit(0);
                }
                libc::close(fds[1]);
                let mut b = [0u8; 8];
                let n = libc::read(fds[0], b.as_mut_ptr().cast(), 8);
                libc::close(fds[0]);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                if n == 8 {
                    let v = u64::from_le_bytes(b);
                    self.calls[i].want = if v == u64::MAX { Out::Err } else { Out::Len(v as usize) };
                }
            }
        }
    }
    /// Runs `f` in a child process; passes its violation on.
    pub fn forked(&mut self, f: impl FnOnce(&mut Runner)) {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                env::arm_timer();
                f(self);
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if st != 0 {
                let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 72 };
                libc::_exit(code);
            }
        }
    }
}

pub fn history_parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        // every pair of calls in a fresh process (the first one selects implementations)
        "fresh" => {
            let a = calls::alphabet(0);
            let k = a.len();
            let mut r = Runner::new(x, a);
            r.pin_any();
            for i in 0..k {
                if !x.mine() {
                    continue;
                }
                for j in 0..k {
                    r.forked(|r| {
                        r.go(i);
                        r.go(j);
                        r.go(i);
                        r.go(j);
                    });
                    x.cases += 1;
                    x.calls += 4;
                    x.ok += 4;
                }
                x.group("fresh processes", k as u64);
            }
            x.sample(format!("{k} calls (every entry point, documented panics), every ordered pair from a fresh process"));
        }
        // every history of two calls, large alphabet
        "pairs" => {
            let a = calls::alphabet(2);
            let k = a.len();
            let mut r = Runner::new(x, a);
            r.pin_any();
            let mut n = 0u64;
            // shard by first symbol: all pairs (i, j) with i in this shard
            for i in 0..k {
                if !x.mine() {
                    continue;
                }
                for j in 0..k {
                    r.go(i);
                    r.go(j);
                    n += 2;
                }
            }
            x.cases += n / 2;
            x.calls += n;
            x.ok += n;
            x.group("histories of two calls", n / 2);
            x.sample(format!("{k} calls, all ordered pairs; e.g. {} -> {}", r.calls[3].name, r.calls[k / 2].name));
        }
        // every history of three calls
        "triples" => {
            let a = calls::alphabet(if t { 1 } else { 0 });
            // shards take different rotations of the alphabet subset: histories whose first call is in the shard
            let k = a.len();
            let mut r = Runner::new(x, a);
            r.pin_any();
            let mut n = 0u64;
            for i in 0..k {
                if !x.mine() {
                    continue;
                }
                for j in 0..k {
                    for l in 0..k {
                        r.go(i);
                        r.go(j);
                        r.go(l);
                        n += 3;
                    }
                }
            }
            x.cases += n / 3;
            x.calls += n;
            x.ok += n;
            x.group("histories of three calls", n / 3);
            x.sample(format!("{k} calls, all ordered triples"));
        }
        // four and five calls over a small alphabet, as de Bruijn sequences
        "deep" => {
            let full = calls::alphabet(1);
            let pick: Vec<Call> = full.iter().step_by(if t { 9 } else { 17 }).cloned().collect();
            for g in 0..if t { 4usize } else { 2 } {
                // different subsets, each closed under histories of length 4 (5)
                let m = if t { 40 } else { 24 };
                let sub: Vec<Call> = (0..m).map(|i| pick[(i * (2 * g + 1) + g) % pick.len()].clone()).collect();
                if !x.mine() {
                    continue;
                }
                let mut r = Runner::new(x, sub);
                r.pin_any();
                let mut n = 0u64;
                de_bruijn(m, 4, &mut |s| {
                    r.go(s);
                    n += 1;
                });
                x.cases += n;
                x.calls += n;
                x.ok += n;
                x.group("windows of four calls", n);
                let small: Vec<Call> = (0..10).map(|i| pick[(i * (2 * g + 3) + 2 * g) % pick.len()].clone()).collect();
                let mut r = Runner::new(x, small);
                r.pin_any();
                let mut n = 0u64;
                de_bruijn(10, if t { 6 } else { 5 }, &mut |s| {
                    r.go(s);
                    n += 1;
                });
                x.cases += n;
                x.calls += n;
                x.ok += n;
                x.group("windows of five or more calls", n);
            }
        }
        // the same call very often, then every other call
        "repeat" => {
            let a = calls::alphabet(1);
            let k = a.len();
            let mut r = Runner::new(x, a);
            r.pin_any();
            let reps = if t { 300_000 } else { 66_000 };
            for i in 0..k {
                if !x.mine() {
                    continue;
                }
                let m = if r.calls[i].panics() { reps / 60 } else { reps };
                for _ in 0..m {
                    r.go(i);
                }
                for j in 0..k {
                    r.go(j);
                }
                x.cases += 1;
                x.calls += (m + k) as u64;
                x.ok += (m + k) as u64;
            }
            x.sample(format!("each of {k} calls {reps} times in a row, then every other call"));
        }
        "near" => near(x),
        "place" => place(x),
        // inputs of every pair of lengths, the first one accepted or rejected
        "sizes" => {
            use crate::env::Place::At;
            let max = if t { 330usize } else { 140 };
            for op in ops::Op::all() {
                let unit = op.unit();
                if op.fixed16() {
                    continue;
                }
                let texts: Vec<Vec<Vec<u8>>> = (0..=max / unit).map(|k| crate::mem::contents(op, k * unit, false)).collect();
                for a in 0..texts.len() {
                    if !x.mine() {
                        continue;
                    }
                    let firsts: Vec<usize> = if texts[a].len() > 1 { vec![0, 1, texts[a].len() - 1] } else { vec![0] };
                    for b in 0..texts.len() {
                        for &f in &firsts {
                            for (note, text) in [("", &texts[a][f]), ("after the same operation on a text of another length", &texts[b][0])] {
                                env::set_note(note);
                                x.put(At(0), text);
                                x.run(op, At(0), text.len(), At(0), text.len() * 2 + 40);
                            }
                            env::set_note("");
                            x.group("histories of two lengths", 1);
                        }
                    }
                }
            }
            x.sample(format!("every entry point on every ordered pair of input lengths up to {max}, the first input accepted or rejected"));
        }
        _ => panic!("unknown part {part}"),
    }
    let (h, c) = (x.cases, x.calls);
    x.group("states", h);
    x.group("transitions", c);
    x.group("traces", h);
    x.group("distinct", h);
}

/// Operations whose calls prepare the ground for calls of `op`: same family, same and other variants.
fn relatives(op: ops::Op) -> Vec<ops::Op> {
    use ops::{Op::*, *};
    let forms = |f: Form| if f.is_enc() { vec![f, Enc, EncLen, Dec] } else { vec![f, Dec, Check, DecIn, DecLen, Enc] };
    let mut r = vec![op];
    match op {
        B64(v, f) => {
            r.extend(forms(f).into_iter().map(|g| B64(v, g)));
            r.extend((0..4).map(|w| B64(w, f)));
            r.push(Forg);
        }
        B32(v, f) => {
            r.extend(forms(f).into_iter().map(|g| B32(v, g)));
            r.extend((0..4).map(|w| B32(w, f)));
        }
        Hex(c, f) => {
            r.extend(forms(f).into_iter().map(|g| Hex(if g.is_enc() { c } else { 0 }, g)));
            if f.is_enc() {
                r.push(Hex(1 - c, f));
            }
            r.extend([HexRawCheck, HexRawDec]);
        }
        HexRawCheck | HexRawDec | HexRawDecIn => r.extend([HexRawCheck, HexRawDec, HexRawDecIn, Hex(0, Dec)]),
        HexRawEnc(c) => r.extend([HexRawEnc(1 - c), Hex(c, Enc)]),
        Forg | ForgIn | ForgVec => r.extend([Forg, ForgIn, ForgVec, B64(0, Dec), B64(2, Dec)]),
        UuidParse | UuidParseSimple | UuidParseHyph | UuidExtParse | UuidExtParseSimple | UuidExtParseHyph => {
            r.extend([UuidParse, UuidParseSimple, UuidParseHyph, UuidExtParse, UuidExtParseSimple, UuidExtParseHyph])
        }
        UuidFmtSimple(_) | UuidFmtHyph(_) | UuidExtFmtSimple(_) | UuidExtFmtHyph(_) => {
            r.extend([UuidFmtSimple(0), UuidFmtHyph(0), UuidFmtSimple(1), UuidFmtHyph(1), UuidExtFmtSimple(2), UuidExtFmtHyph(2)])
        }
        IsAscii | FromAscii => r.extend([IsAscii, FromAscii]),
        IsUtf32 => {}
        Swap16 | Swap16In | Swap32 | Swap32In => r.extend([Swap16, Swap16In, Swap32, Swap32In]),
    }
    let mut u: Vec<ops::Op> = vec![];
    for o in r {
        if !u.contains(&o) {
            u.push(o);
        }
    }
    u
}

/// Histories "a call with a well-formed input, then a call with an input that differs from it in one or
/// two places or in length, then the well-formed one again".
fn near(x: &mut X) {
    use crate::env::Place::At;
    let t = x.thorough;
    const CH: &[u8] = b"=-{}()[] \n0AaGg+/_:u!\x00\x7f\x80\xff";
    const PAIR: &[u8] = b"=()-{}0g\x80";
    for op in ops::Op::all() {
        if matches!(op, ops::Op::B64(_, ops::EstLen) | ops::Op::B32(_, ops::EstLen)) {
            continue;
        }
        let unit = op.unit();
        let mut bases: Vec<Vec<u8>> = vec![];
        match op {
            ops::Op::UuidParse | ops::Op::UuidExtParse | ops::Op::UuidParseSimple | ops::Op::UuidExtParseSimple | ops::Op::UuidParseHyph | ops::Op::UuidExtParseHyph => {
                for u in ["67e5504410b1426f9247bb680e5fe0c8", "67e55044-10b1-426f-9247-bb680e5fe0c8", "{67e55044-10b1-426f-9247-bb680e5fe0c8}", "urn:uuid:67e55044-10b1-426f-9247-bb680e5fe0c8"] {
                    bases.push(u.as_bytes().to_vec());
                }
            }
            _ if op.fixed16() => bases.push((0..16).map(|i| (i * 17 + 3) as u8).collect()),
            _ => {
                let lens: &[usize] = if t { &[4, 8, 16, 24, 32, 40, 64, 72, 136, 264] } else { &[4, 8, 16, 24, 32, 40, 64, 72] };
                for &n in lens {
                    bases.push(crate::mem::contents(op, n, false).into_iter().next().unwrap());
                    // a padded text
                    let (k, pad) = match op {
                        ops::Op::B64(v, f) if !f.is_enc() && v < 2 => (1, true),
                        ops::Op::B32(v, f) if !f.is_enc() && v < 2 => (3, true),
                        ops::Op::Forg | ops::Op::ForgIn | ops::Op::ForgVec => (2, true),
                        _ => (0, false),
                    };
                    if pad && n <= 40 {
                        let mut b = bases.last().unwrap().clone();
                        for q in b[n - k..].iter_mut() {
                            *q = b'=';
                        }
                        b[n - k - 1] = match op {
                            ops::Op::B32(1, _) => b'0',
                            _ => b'A',
                        };
                        bases.push(b);
                    }
                }
            }
        }
        let rel = relatives(op);
        for bi in 0..bases.len() {
            if !x.mine() {
                continue;
            }
            let base = bases[bi].clone();
            let n = base.len();
            // the calls that come first
            let mut primes: Vec<(ops::Op, Vec<u8>)> = vec![];
            for &r in &rel {
                if n % r.unit() == 0 && (!r.fixed16() || n == 16) {
                    primes.push((r, base.clone()));
                }
            }
            if !op.fixed16() {
                let others = [(bi + 1) % bases.len(), (bi + bases.len() - 1) % bases.len()];
                for o in others {
                    if o != bi {
                        primes.push((op, bases[o].clone()));
                    }
                }
            }
            let dl = n * 2 + 40;
            let mut m = 0u64;
            let put = |x: &mut X, p: &(ops::Op, Vec<u8>)| {
                x.put(At(0), &p.1);
                x.run(p.0, At(0), p.1.len(), At(0), p.1.len() * 2 + 40);
            };
            let notes: Vec<&'static str> = primes
                .iter()
                .map(|p| &*Box::leak(format!("the call before it was {} on {}", p.0.name(), String::from_utf8_lossy(&p.1)).into_boxed_str()))
                .collect();
            let step = |x: &mut X, k: usize, text: &[u8]| {
                put(x, &primes[k]);
                env::set_note(notes[k]);
                x.put(At(0), text);
                x.run(op, At(0), text.len(), At(0), dl);
                env::set_note("");
            };
            let mut text = base.clone();
            for p in 0..n {
                for c in 0..=255u8 {
                    let special = CH.contains(&c) || c == base[p] ^ 0x20;
                    if c == base[p] || (!t && !special && n > 40) {
                        continue;
                    }
                    text[p] = c;
                    for k in 0..if special || t { primes.len() } else { primes.len().min(3) } {
                        step(x, k, &text);
                        m += 1;
                    }
                    if special {
                        // and the good one after the bad one
                        env::set_note("after a rejected or different neighbour");
                        put(x, &primes[0]);
                        env::set_note("");
                    }
                    text[p] = base[p];
                }
            }
            if n <= 48 {
                for p in 0..n {
                    for q in p + 1..n {
                        for &c in PAIR {
                            for &d in PAIR {
                                text[p] = c;
                                text[q] = d;
                                step(x, 0, &text);
                                m += 1;
                            }
                        }
                        text[p] = base[p];
                        text[q] = base[q];
                    }
                }
            }
            // the same characters in another order (same length, same sums): exchanges and rotations
            for p in (0..n).step_by(unit) {
                for q in (p + unit..n).step_by(unit) {
                    if n > 48 && !t && (q - p) / unit > 9 && (p + q) / unit % 5 != 0 {
                        continue;
                    }
                    for k in 0..unit {
                        text.swap(p + k, q + k);
                    }
                    step(x, 0, &text);
                    m += 1;
                    text.copy_from_slice(&base);
                }
                text.rotate_left(p);
                step(x, 0, &text);
                m += 1;
                text.copy_from_slice(&base);
            }
            if !op.fixed16() {
                for cut in (1..=(n / unit).min(9)).map(|k| k * unit) {
                    for text in [base[..n - cut].to_vec(), base[cut..].to_vec(), [&base[..], &base[..cut]].concat(), [&base[..], &b"========="[..cut.min(9)]].concat()] {
                        if text.len() % unit != 0 {
                            continue;
                        }
                        for k in 0..primes.len() {
                            step(x, k, &text);
                            m += 1;
                        }
                    }
                }
            }
            x.group("near histories", m);
        }
    }
    x.sample("a well-formed call, then the same or a related operation on a text that differs from it in one or two places or in length".into());
}

/// Histories over one buffer whose content changes between the calls (same address, same length), and
/// over two buffers with the same content, at lengths beyond those of the other parts.
fn place(x: &mut X) {
    use crate::env::Place::At;
    let t = x.thorough;
    let lens: &[usize] = if t { &[48, 64, 96, 128, 160, 256, 272, 320, 512, 1024, 1040, 2048, 4096, 8192, 16384, 65536] } else { &[64, 96, 128, 256, 320, 512, 1024, 4096, 16384] };
    for op in ops::Op::all() {
        if op.fixed16() || matches!(op, ops::Op::B64(_, ops::EstLen) | ops::Op::B32(_, ops::EstLen)) {
            continue;
        }
        let rel = relatives(op);
        for &n in lens {
            if !x.mine() {
                continue;
            }
            let mut texts = crate::mem::contents(op, n, true);
            let base = texts[0].clone();
            for p in [0, 1, n / 4, n / 2, n / 2 + 1, n / 4 * 3, n - 17, n - 2, n - 1] {
                for d in [1u8, 0x80] {
                    let mut v = base.clone();
                    v[p] ^= d;
                    texts.push(v);
                }
            }
            let go = |x: &mut X, o: ops::Op, text: &[u8], at: usize, note: &'static str| {
                env::set_note(note);
                x.put(At(at), text);
                x.run(o, At(at), text.len(), At(0), text.len() * 2 + 40);
                env::set_note("");
            };
            let k = texts.len();
            // the same buffer with another content
            let firsts = if n <= 320 || t && n <= 1040 { k } else { 2 };
            let mut m = 0;
            for i in 0..firsts {
                for j in 0..k {
                    if i != j {
                        go(x, op, &texts[i], 0, "after the same buffer held another text");
                        go(x, op, &texts[j], 0, "after the same buffer held another text");
                        m += 1;
                    }
                }
            }
            // a related operation first
            for &r in &rel {
                if n > 4096 && !t || n % r.unit() != 0 || r.fixed16() {
                    continue;
                }
                for j in 1..k {
                    go(x, r, &base, 0, "");
                    go(x, op, &texts[j], 0, "after a related operation while the buffer held another text");
                    go(x, r, &texts[j], 0, "after a related operation on the same buffer");
                    go(x, op, &base, 0, "after a related operation while the buffer held another text");
                    m += 1;
                }
            }
            // another buffer with the same content, then the first one changed
            for j in 1..k {
                go(x, op, &base, 0, "");
                go(x, op, &base, n + 64, "after the same text in another buffer");
                go(x, op, &texts[j], n + 64, "after another text in the same buffer");
                go(x, op, &texts[j], 0, "after the same text in another buffer");
                m += 1;
            }
            // many calls in between
            for j in 1..k.min(6) {
                go(x, op, &base, 0, "");
                for _ in 0..40 {
                    go(x, op, &base, 0, "");
                }
                for q in 0..20usize {
                    go(x, op, &base[..n / op.unit() / 21 * (q + 1) * op.unit()], 0, "");
                }
                go(x, op, &texts[j], 0, "after many calls on the same buffer with another text");
            }
            x.group("histories over one buffer", m);
        }
    }
    x.sample("a call on a buffer, then a call on the same or another buffer whose content is the same, or differs in one place".into());
}
