#![allow(static_mut_refs, dead_code, clippy::all)]
//! C18: parallel Base64 encoding. Explores lengths x worker counts x destination sizes on real thread pools, and every
//! order in which the chunks can start and finish (each chunk is held at a page fault until the explorer lets it go).
use base64_simd::{AsOut, Base64, STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

const VARIANTS: [&Base64; 4] = [&STANDARD, &URL_SAFE, &STANDARD_NO_PAD, &URL_SAFE_NO_PAD];
const NAMES: [&str; 4] = ["standard", "url_safe", "standard_no_pad", "url_safe_no_pad"];

/// Written from RFC 4648.
fn reference(src: &[u8], v: usize, out: &mut Vec<u8>) {
    let t: &[u8; 64] = if v % 2 == 0 {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    } else {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    };
    out.clear();
    for c in src.chunks(3) {
        let mut w = 0u32;
        for k in 0..3 {
            w = w << 8 | *c.get(k).unwrap_or(&0) as u32;
        }
        for k in 0..=c.len() {
            out.push(t[(w >> (18 - 6 * k) & 63) as usize]);
        }
        if v < 2 {
            for _ in c.len()..3 {
                out.push(b'=');
            }
        }
    }
}

fn jstr(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "))
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CUR: [AtomicUsize; 5] = [const { AtomicUsize::new(0) }; 5]; // variant, threads, len, dst len, order
static mut ISA: &str = "native";
static mut CFG: &str = "par";
fn violation(what: &str) -> ! {
    let c: Vec<usize> = CUR.iter().map(|a| a.load(SeqCst)).collect();
    let s = format!(
        "VIOL {{\"what\":{},\"op\":{},\"isa\":{},\"cfg\":{},\"note\":{},\"src_len\":{},\"dst_len\":{},\"input\":\"\"}}\n",
        jstr(what),
        jstr(&format!("base64.{}.par_encode", NAMES[c[0] & 3])),
        jstr(unsafe { ISA }),
        jstr(unsafe { CFG }),
        jstr(&format!("{} worker threads, order number {}", c[1], c[4])),
        c[2],
        c[3]
    );
    unsafe {
        libc::write(1, s.as_ptr().cast(), s.len());
        libc::_exit(1)
    }
}

const PAGE: usize = 4096;
struct Arena {
    base: *mut u8,
    cap: usize,
}
unsafe impl Send for Arena {}
unsafe impl Sync for Arena {}
impl Arena {
    fn new(cap: usize) -> Arena {
        unsafe {
            let b = libc::mmap(core::ptr::null_mut(), cap + 2 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(b != libc::MAP_FAILED);
            assert!(libc::mprotect(b.add(PAGE), cap, libc::PROT_READ | libc::PROT_WRITE) == 0);
            Arena { base: b.cast::<u8>().add(PAGE), cap }
        }
    }
    fn end(&self, len: usize) -> *mut u8 {
        unsafe { self.base.add(self.cap - len) }
    }
}

// ------------------------------------------------------------------------------------------------ gates
#[derive(Clone, Copy)]
struct Gate {
    lo: usize,
    hi: usize,
    chunk: usize,
    /// 0 begin, 1 end
    phase: usize,
}
static mut GATES: Vec<Gate> = Vec::new();
/// per gate: 0 closed, 1 someone waits, 2 open
static STATE: [AtomicU32; 64] = [const { AtomicU32::new(2) }; 64];

extern "C" fn on_segv(_s: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    unsafe {
        let a = (*info).si_addr() as usize;
        for (i, g) in GATES.iter().enumerate() {
            if a >= g.lo && a < g.hi {
                let _ = STATE[i].compare_exchange(0, 1, SeqCst, SeqCst);
                while STATE[i].load(SeqCst) != 2 {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000 };
                    libc::nanosleep(&ts, core::ptr::null_mut());
                }
                return;
            }
        }
        violation(&format!("SIGSEGV: access outside the buffers at {a:#x}"));
    }
}
fn close_all() {
    unsafe {
        for (i, g) in GATES.iter().enumerate() {
            STATE[i].store(0, SeqCst);
            libc::mprotect(g.lo as *mut _, g.hi - g.lo, libc::PROT_NONE);
        }
    }
}
fn open(i: usize) {
    unsafe {
        let g = GATES[i];
        libc::mprotect(g.lo as *mut _, g.hi - g.lo, libc::PROT_READ | libc::PROT_WRITE);
        STATE[i].store(2, SeqCst);
    }
}

#[derive(Default)]
struct Stat {
    cases: u64,
    ok: u64,
    err: u64,
    bytes: u64,
    distinct: u64,
    groups: BTreeMap<String, u64>,
    samples: Vec<String>,
}

struct E {
    src: Arena,
    dst: Arena,
    want: Vec<u8>,
    st: Stat,
}

impl E {
    /// Runs one call in the current pool and judges it.
    fn one(&mut self, v: usize, p: usize, n: usize, dl: usize, order: usize) {
        for (a, b) in CUR.iter().zip([v, p, n, dl, order]) {
            a.store(b, SeqCst);
        }
        PROGRESS.fetch_add(1, SeqCst);
        let src = unsafe { core::slice::from_raw_parts(self.src.end(n), n) };
        let d = unsafe { core::slice::from_raw_parts_mut(self.dst.end(dl), dl) };
        let base = d.as_ptr();
        let r = catch_unwind(AssertUnwindSafe(|| match VARIANTS[v].par_encode(src, d.as_out()) {
            Ok(s) => Some((s.as_ptr(), s.len())),
            Err(_) => None,
        }));
        self.judge(r, base, dl);
        self.st.cases += 1;
        self.st.bytes += n as u64;
        self.st.distinct += (n > 0) as u64;
    }
    fn judge(&mut self, r: std::thread::Result<Option<(*const u8, usize)>>, base: *const u8, dl: usize) {
        match r {
            Err(e) => {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                violation(&format!("panicked: {m}"))
            }
            Ok(None) => {
                if dl >= self.want.len() {
                    violation("reports an error although the destination is long enough")
                }
                self.st.err += 1;
            }
            Ok(Some((q, k))) => {
                if dl < self.want.len() {
                    violation("succeeds although the destination is too short")
                }
                if k != self.want.len() {
                    violation(&format!("returns {k} bytes instead of {}", self.want.len()))
                }
                if k > 0 && q != base {
                    violation("result does not start at the destination")
                }
                let got = unsafe { core::slice::from_raw_parts(q, k) };
                if let Some(i) = (0..k).find(|&i| got[i] != self.want[i]) {
                    violation(&format!("byte {i} of {k} is {:#x} instead of {:#x}", got[i], self.want[i]))
                }
                self.st.ok += 1;
            }
        }
    }
    fn set(&mut self, v: usize, n: usize) {
        let src = unsafe { core::slice::from_raw_parts(self.src.end(n), n) };
        let mut w = std::mem::take(&mut self.want);
        reference(src, v, &mut w);
        self.want = w;
    }
    fn wipe(&mut self, dl: usize) {
        // no byte of the expected text is 0
        unsafe { core::ptr::write_bytes(self.dst.end(dl), 0, dl) }
    }
}

fn fill(a: &Arena) {
    let s = unsafe { core::slice::from_raw_parts_mut(a.base, a.cap) };
    let mut x = 0x2545F491_4F6CDD1Du64;
    for b in s {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x >> 32) as u8;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string()) };
    let part = get("--part", "");
    let thorough = get("--tier", "quick") == "thorough";
    let shard = get("--shard", "0/1");
    let (a, b) = shard.split_once('/').unwrap();
    let (shard, nshards): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
    let isa = get("--isa", "native");
    let level = ["fallback", "sse2", "ssse3", "sse41", "avx2"].iter().position(|&s| s == isa).map(|k| k as u8).unwrap_or(255);
    vsimd::isa::mc::CAP.store(level, SeqCst);
    unsafe {
        ISA = Box::leak(isa.into_boxed_str());
        CFG = Box::leak(get("--cfg", "par").into_boxed_str());
        let mut a: libc::sigaction = core::mem::zeroed();
        a.sa_sigaction = on_segv as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &a, core::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &a, core::ptr::null_mut());
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(SeqCst);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(90) && p != 0 {
                violation("call does not return (90 s)");
            }
        }
    });
    let cap = if part == "large" { if thorough { 160 << 20 } else { 13 << 20 } } else { 4 << 20 };
    let mut e = E { src: Arena::new(cap), dst: Arena::new(cap * 2), want: vec![], st: Stat::default() };
    fill(&e.src);
    let mut counter = 0usize;
    let mut mine = move || {
        counter += 1;
        (counter - 1) % nshards == shard
    };
    match part.as_str() {
        "lengths" => {
            // quick: lengths around every change of the chunking arithmetic; thorough: dense ranges
            let mut ps: Vec<usize> = (1..=if thorough { 24 } else { 12 }).collect();
            ps.extend([16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257]);
            if thorough {
                ps.extend([300, 400]);
            }
            for p in ps {
                let vs: Vec<usize> = (0..4).filter(|_| mine()).collect();
                if vs.is_empty() {
                    continue;
                }
                let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
                pool.install(|| {
                    let t0 = p * 4096;
                    let mut lens: Vec<usize> = (0..70).collect();
                    for k in if thorough { vec![1, 2, 3, 5, 6, 7] } else { vec![1, 2, 3] } {
                        let c = k * t0;
                        // two full periods of (length mod 3) x (groups mod p)
                        let w = 6 * p + 12;
                        let step = if p > 64 && !thorough {
                            61
                        } else if p > 12 && !thorough {
                            7
                        } else {
                            1
                        };
                        lens.extend((c.saturating_sub(12)..c + w).step_by(step));
                    }
                    for k in 1..=if thorough {
                        40
                    } else if p > 12 {
                        1
                    } else {
                        12
                    } {
                        // chunk of exactly k pages, one group less, one more
                        let c = 12288 * k * p;
                        lens.extend((c.saturating_sub(3 * p + 4)..c + 4).step_by(if thorough { 1 } else { 1 + p / 4 }));
                    }
                    if thorough && p <= 8 {
                        lens.extend(t0..t0 + 9000);
                    }
                    lens.retain(|&n| n < cap - 8);
                    lens.sort();
                    lens.dedup();
                    for &n in &lens {
                        for &v in &vs {
                            e.set(v, n);
                            let m = e.want.len();
                            for dl in if p > 12 && !thorough { vec![m, m + 97] } else { vec![m, m + 1, m + 4, m + 97] } {
                                e.wipe(dl);
                                e.one(v, p, n, dl, 0);
                            }
                            if v % 2 == 0 || n % 5 == 0 {
                                for dl in if p > 12 && !thorough { vec![0, m.saturating_sub(1)] } else { vec![0, m / 2, m.saturating_sub(4), m.saturating_sub(1)] } {
                                    if dl < m {
                                        e.one(v, p, n, dl, 0);
                                    }
                                }
                            }
                        }
                    }
                    *e.st.groups.entry("(length, worker count, variant) triples".into()).or_default() += (lens.len() * vs.len()) as u64;
                });
            }
            e.st.samples.push("real thread pools of 1..12 (24) and of 16 to 257 (400) workers; every length in windows around the parallel threshold and around multiples of it, destination exact, longer, shorter".into());
        }
        "giant" => {
            let g = 1usize << 32;
            // chunks of more than 2^32 bytes of text, then also of input
            let mut all = vec![(2usize, 0usize, g / 2 * 3 + (g >> 4) + 1)];
            if thorough {
                all.extend([(2, 1, 2 * g + (g >> 4) + 2), (3, 0, 2 * g + (g >> 3) + 5), (2, 2, g + 77), (8, 3, 2 * g + 4), (64, 1, g / 4 * 3 + 1)]);
            }
            for (p, v, n) in all {
                if mine() {
                    giant(&mut e, p, v, n);
                }
            }
        }
        // long inputs: 2^k or 3*2^k bytes, or that many groups, per worker and in total
        "large" => {
            for p in [2usize, 3, 4, 5, 7, 8, 12, 16, 64] {
                let mut lens = vec![];
                for k in 11..28 {
                    for c in [1usize << k, 3 << k, 9 << k, (1 << k) / p, 5 << k] {
                        for d in [-1i64, 0, 1, 2] {
                            lens.push(((c * p) as i64 + d) as usize);
                        }
                    }
                }
                lens.retain(|&n| n >= p * 4096 && n < cap - 8);
                lens.sort();
                lens.dedup();
                let lens: Vec<usize> = lens.into_iter().filter(|_| mine()).collect();
                if lens.is_empty() {
                    continue;
                }
                let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
                pool.install(|| {
                    for &n in &lens {
                        // a padded and an unpadded variant, both alphabets
                        for v in if thorough || n < 1 << 20 { vec![0usize, 1, 2, 3] } else { vec![n & 1, 2 + (n >> 1 & 1)] } {
                            e.set(v, n);
                            let m = e.want.len();
                            for dl in if n % 2 == 0 && !thorough { [m, 0] } else { [m, m + 97] }.into_iter().filter(|&d| d > 0) {
                                e.wipe(dl);
                                e.one(v, p, n, dl, 0);
                            }
                            e.one(v, p, n, m - 1, 0);
                        }
                    }
                    *e.st.groups.entry("(length, worker count) pairs, long inputs".into()).or_default() += lens.len() as u64;
                });
            }
            e.st.samples.push(format!("2^k and 3*2^k bytes or groups per worker, up to {} MiB", cap >> 20));
        }
        "outside" => {
            // called from a thread outside any pool: the global pool does the work
            std::env::set_var("RAYON_NUM_THREADS", format!("{}", 3 + shard));
            let p = rayon::current_num_threads();
            for n in (p * 4096 - 20)..(p * 4096 + 60) {
                for v in 0..4 {
                    e.set(v, n);
                    let m = e.want.len();
                    for dl in [m, m + 3, m - 1] {
                        e.wipe(dl);
                        e.one(v, p, n, dl, 0);
                    }
                }
            }
            // and from several threads at once, from inside the pool, and nested
            for n in [p * 4096, p * 4096 + 1, p * 12288 - 1] {
                for v in 0..4 {
                    e.set(v, n);
                    let m = e.want.len();
                    let src = unsafe { core::slice::from_raw_parts(e.src.end(n), n) };
                    let outs: Vec<Vec<u8>> = std::thread::scope(|s| {
                        let hs: Vec<_> = (0..4)
                            .map(|_| {
                                s.spawn(move || {
                                    let mut d = vec![0u8; m];
                                    let ok = VARIANTS[v].par_encode(src, d.as_out()).is_ok();
                                    if !ok {
                                        d.clear();
                                    }
                                    d
                                })
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    });
                    let (a, b) = rayon::join(
                        || {
                            let mut d = vec![0u8; m];
                            VARIANTS[v].par_encode(src, d.as_out()).is_ok().then_some(d)
                        },
                        || {
                            let mut d = vec![0u8; m];
                            VARIANTS[v].par_encode(src, d.as_out()).is_ok().then_some(d)
                        },
                    );
                    for o in outs.into_iter().chain([a.unwrap_or_default(), b.unwrap_or_default()]) {
                        if o != e.want {
                            violation("simultaneous parallel encodings: wrong result");
                        }
                        e.st.cases += 1;
                        e.st.ok += 1;
                        e.st.distinct += 1;
                    }
                }
            }
            e.st.samples.push("global pool; simultaneous and nested parallel encodings".into());
        }
        // every order of (start, finish) events of the chunks
        "orders" => {
            let ps: &[usize] = &[2, 3, 4];
            for &p in ps {
                orders(&mut e, p, thorough, &mut mine);
            }
        }
        // every order of starts only, more chunks
        "starts" => {
            for &p in if thorough { &[2usize, 3, 4, 5, 6, 7][..] } else { &[2usize, 3, 4, 5, 6][..] } {
                starts(&mut e, p, &mut mine);
            }
        }
        // two calls at the same time
        "two" => {
            two(&mut e, false, &mut mine);
            two(&mut e, true, &mut mine);
        }
        _ => std::process::exit(64),
    }
    let s = &e.st;
    let g: Vec<String> = s.groups.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).chain([format!("\"distinct\":{}", s.distinct)]).collect();
    let q: Vec<String> = s.samples.iter().map(|k| jstr(k)).collect();
    println!(
        "STAT {{\"cases\":{},\"calls\":{},\"accepted\":{},\"rejected\":{},\"bytes\":{},\"groups\":{{{}}},\"samples\":[{}]}}",
        s.cases,
        s.cases,
        s.ok,
        s.err,
        s.bytes,
        g.join(","),
        q.join(",")
    );
}

/// All interleavings of `p` chunks with `phases` events each.
fn interleavings(p: usize, phases: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(seq: &mut Vec<usize>, cnt: &mut Vec<usize>, phases: usize, total: usize, f: &mut dyn FnMut(&[usize])) {
        if seq.len() == total {
            f(seq);
            return;
        }
        for c in 0..cnt.len() {
            if cnt[c] < phases {
                cnt[c] += 1;
                seq.push(c);
                rec(seq, cnt, phases, total, f);
                seq.pop();
                cnt[c] -= 1;
            }
        }
    }
    rec(&mut vec![], &mut vec![0; p], phases, p * phases, f);
}

fn orders(e: &mut E, p: usize, thorough: bool, mine: &mut dyn FnMut() -> bool) {
    gated(e, p, 2, if thorough { 1 } else { 2 }, mine);
}
fn starts(e: &mut E, p: usize, mine: &mut dyn FnMut() -> bool) {
    gated(e, p, 1, 1, mine);
}

fn gated(e: &mut E, p: usize, phases: usize, _k: usize, mine: &mut dyn FnMut() -> bool) {
    // chunks of exactly 12288 source bytes (3 pages) and 16384 destination bytes (4 pages)
    let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
    let mut seqs: Vec<Vec<usize>> = vec![];
    interleavings(p, phases, &mut |s| seqs.push(s.to_vec()));
    let mut missed_all = 0u64;
    for (oi, seq) in seqs.iter().enumerate() {
        if !mine() {
            continue;
        }
        // groups: largest and smallest number that give 4096 groups per chunk, each remainder
        let r = oi % 3;
        let b = if oi % 2 == 0 { 4096 * p - 1 } else { 4095 * p };
        let n = 3 * b + r;
        let v = (oi / 2 + oi / 3) % 4;
        // source and destination at the start of their arenas: pages and chunks coincide
        let src: &'static [u8] = unsafe { core::slice::from_raw_parts(e.src.base, n) };
        let mut w = std::mem::take(&mut e.want);
        reference(src, v, &mut w);
        e.want = w;
        let m = e.want.len();
        unsafe { core::ptr::write_bytes(e.dst.base, 0, m) };
        let d: &'static mut [u8] = unsafe { core::slice::from_raw_parts_mut(e.dst.base, m) };
        let base = d.as_ptr();
        for (a, b) in CUR.iter().zip([v, p, n, m, oi]) {
            a.store(b, SeqCst);
        }
        unsafe {
            GATES.clear();
            for c in 0..p {
                let s0 = e.src.base as usize + c * 12288;
                GATES.push(Gate { lo: s0, hi: s0 + PAGE, chunk: c, phase: 0 });
                if phases == 2 {
                    let d0 = e.dst.base as usize + c * 16384 + PAGE * 2;
                    GATES.push(Gate { lo: d0, hi: d0 + PAGE, chunk: c, phase: 1 });
                }
            }
        }
        close_all();
        PROGRESS.fetch_add(1, SeqCst);
        let finished = AtomicBool::new(false);
        let mut held = 0u64;
        let mut missed = 0u64;
        let r = std::thread::scope(|s| {
            let h = s.spawn(|| {
                let r = pool.install(|| {
                    catch_unwind(AssertUnwindSafe(|| match VARIANTS[v].par_encode(src, d.as_out()) {
                        Ok(s) => Some((s.as_ptr() as usize, s.len())),
                        Err(_) => None,
                    }))
                });
                finished.store(true, SeqCst);
                r
            });
            let mut ph = vec![0usize; p];
            for &c in seq {
                let gi = unsafe { GATES.iter().position(|g| g.chunk == c && g.phase == ph[c]).unwrap() };
                ph[c] += 1;
                let t0 = Instant::now();
                let mut spins = 0;
                while STATE[gi].load(SeqCst) == 0 && !finished.load(SeqCst) && t0.elapsed() < Duration::from_millis(if missed_all > 60 { 2 } else { 300 }) {
                    spins += 1;
                    if spins > 50 {
                        std::thread::sleep(Duration::from_micros(20));
                    }
                }
                if STATE[gi].load(SeqCst) == 1 {
                    held += 1;
                } else {
                    missed += 1;
                    missed_all += 1;
                }
                open(gi);
            }
            h.join().unwrap()
        });
        for i in 0..unsafe { GATES.len() } {
            if STATE[i].load(SeqCst) != 2 {
                open(i);
            }
        }
        let r = r.map(|o| o.map(|(a, b)| (a as *const u8, b)));
        e.judge(r, base, m);
        e.st.cases += 1;
        e.st.distinct += 1;
        e.st.bytes += n as u64;
        *e.st.groups.entry("chunk events ordered as chosen".into()).or_default() += held;
        *e.st.groups.entry("chunk events that could not be ordered as chosen".into()).or_default() += missed;
        *e.st.groups.entry(format!("orders of {p} chunks with {phases} event(s) each")).or_default() += 1;
    }
    e.st.samples.push(format!("{p} chunks on {p} workers: all orders of {}", if phases == 2 { "start and finish events" } else { "starts" }));
}

/// Inputs of more than 4 GiB: a periodic source (one block of memory mapped over and over), a real destination.
fn giant(e: &mut E, p: usize, v: usize, n: usize) {
    const IN: usize = 3 << 20;
    const OUT: usize = 4 << 20;
    unsafe {
        let fd = libc::memfd_create(b"giant\0".as_ptr().cast(), 0);
        assert!(fd >= 0 && libc::ftruncate(fd, IN as i64) == 0);
        let k = n.div_ceil(IN);
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        let none = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let src = libc::mmap(core::ptr::null_mut(), k * IN, libc::PROT_NONE, none, -1, 0).cast::<u8>();
        for i in 0..k {
            assert!(libc::mmap(src.add(i * IN).cast(), IN, rw, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0) != libc::MAP_FAILED);
        }
        libc::close(fd);
        core::ptr::copy_nonoverlapping(e.src.base, src, IN);
        let (mut block, mut last) = (vec![], vec![]);
        reference(core::slice::from_raw_parts(src, IN), v, &mut block);
        reference(core::slice::from_raw_parts(src, n - (k - 1) * IN), v, &mut last);
        let m = (k - 1) * OUT + last.len();
        let dst = libc::mmap(core::ptr::null_mut(), m + PAGE, rw, none, -1, 0).cast::<u8>();
        assert!(dst as isize != -1);
        libc::madvise(dst.cast(), m, libc::MADV_HUGEPAGE);
        for (a, b) in CUR.iter().zip([v, p, n, m, 0]) {
            a.store(b, SeqCst);
        }
        let pool = rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap();
        PROGRESS.fetch_add(1, SeqCst);
        let (sa, da) = (src as usize, dst as usize);
        let r = pool.install(|| {
            let d: &mut [u8] = core::slice::from_raw_parts_mut(da as *mut u8, m);
            match VARIANTS[v].par_encode(core::slice::from_raw_parts(sa as *const u8, n), d.as_out()) {
                Ok(s) => Some((s.as_ptr() as usize, s.len())),
                Err(_) => None,
            }
        });
        PROGRESS.fetch_add(1, SeqCst);
        match r {
            Some((q, l)) if q == da && l == m => {}
            Some((_, l)) => violation(&format!("returns {l} bytes instead of {m}")),
            None => violation("reports an error although the destination is long enough"),
        }
        for i in 0..k {
            let want = if i + 1 == k { &last } else { &block };
            if core::slice::from_raw_parts(dst.add(i * OUT), want.len()) != &want[..] {
                violation(&format!("wrong bytes between {} and {} of {m}", i * OUT, i * OUT + want.len()));
            }
        }
        if *dst.add(m) != 0 {
            violation("writes beyond the result");
        }
        libc::munmap(src.cast(), k * IN);
        libc::munmap(dst.cast(), m + PAGE);
        e.st.cases += 1;
        e.st.ok += 1;
        e.st.distinct += 1;
        e.st.bytes += n as u64;
        e.st.samples.push(format!("{n} bytes (periodic) on {p} workers"));
    }
}

/// Two simultaneous calls with different inputs, variants and lengths: every order of their chunk events. Each call on
/// its own pool of two workers (two chunks each, all held), or both on one pool of two workers (the first chunk of each
/// held).
fn two(e: &mut E, shared: bool, mine: &mut dyn FnMut() -> bool) {
    let pool = || rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    let pools = if shared { vec![pool()] } else { vec![pool(), pool()] };
    let held_chunks = if shared { 1 } else { 2 };
    let mut seqs: Vec<Vec<usize>> = vec![];
    // chunk 2 * call + index
    interleavings(2 * held_chunks, 2, &mut |s| seqs.push(s.iter().map(|&c| if shared { 2 * c } else { c }).collect()));
    const HALF: usize = 1 << 20;
    let mut missed_all = 0u64;
    for (oi, seq) in seqs.iter().enumerate() {
        for round in 0..if shared { 64 } else { 1 } {
            if !mine() {
                continue;
            }
            let k = oi + 7 * round;
            // 4096 groups per chunk, as in `gated`
            let ns = [3 * (if k % 2 == 0 { 8191 } else { 8190 }) + k % 3, 3 * (if k / 2 % 2 == 0 { 8190 } else { 8191 }) + (k / 3) % 3];
            let vs = [k % 4, (k + 1 + k / 4) % 4];
            let (sb, db) = (e.src.base as usize, e.dst.base as usize);
            let mut want = [vec![], vec![]];
            for i in 0..2 {
                let src = unsafe { core::slice::from_raw_parts((sb + i * HALF) as *const u8, ns[i]) };
                reference(src, vs[i], &mut want[i]);
                unsafe { core::ptr::write_bytes((db + i * HALF) as *mut u8, 0, want[i].len()) };
            }
            for (a, b) in CUR.iter().zip([vs[0], 2, ns[0], want[0].len(), k]) {
                a.store(b, SeqCst);
            }
            unsafe {
                GATES.clear();
                for i in 0..2 {
                    for c in 0..held_chunks {
                        let s0 = sb + i * HALF + c * 12288;
                        GATES.push(Gate { lo: s0, hi: s0 + PAGE, chunk: 2 * i + c, phase: 0 });
                        let d0 = db + i * HALF + c * 16384 + PAGE * 2;
                        GATES.push(Gate { lo: d0, hi: d0 + PAGE, chunk: 2 * i + c, phase: 1 });
                    }
                }
            }
            close_all();
            PROGRESS.fetch_add(1, SeqCst);
            let done = AtomicUsize::new(0);
            let (mut held, mut missed) = (0u64, 0u64);
            let lens = [want[0].len(), want[1].len()];
            let rs: Vec<std::thread::Result<Option<(usize, usize)>>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..2)
                    .map(|i| {
                        let (pool, done) = (&pools[i % pools.len()], &done);
                        s.spawn(move || {
                            let src: &'static [u8] = unsafe { core::slice::from_raw_parts((sb + i * HALF) as *const u8, ns[i]) };
                            let d: &'static mut [u8] = unsafe { core::slice::from_raw_parts_mut((db + i * HALF) as *mut u8, lens[i]) };
                            let r = pool.install(|| {
                                catch_unwind(AssertUnwindSafe(|| match VARIANTS[vs[i]].par_encode(src, d.as_out()) {
                                    Ok(s) => Some((s.as_ptr() as usize, s.len())),
                                    Err(_) => None,
                                }))
                            });
                            done.fetch_add(1, SeqCst);
                            r
                        })
                    })
                    .collect();
                let mut ph = [0usize; 4];
                for &c in seq {
                    let gi = unsafe { GATES.iter().position(|g| g.chunk == c && g.phase == ph[c]).unwrap() };
                    ph[c] += 1;
                    let t0 = Instant::now();
                    let mut spins = 0;
                    while STATE[gi].load(SeqCst) == 0 && done.load(SeqCst) < 2 && t0.elapsed() < Duration::from_millis(if missed_all > 60 { 2 } else { 300 }) {
                        spins += 1;
                        if spins > 50 {
                            std::thread::sleep(Duration::from_micros(20));
                        }
                    }
                    if STATE[gi].load(SeqCst) == 1 {
                        held += 1;
                    } else {
                        missed += 1;
                        missed_all += 1;
                    }
                    open(gi);
                }
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for i in 0..unsafe { GATES.len() } {
                if STATE[i].load(SeqCst) != 2 {
                    open(i);
                }
            }
            for (i, r) in rs.into_iter().enumerate() {
                for (a, b) in CUR.iter().zip([vs[i], 2, ns[i], lens[i], k]) {
                    a.store(b, SeqCst);
                }
                e.want = std::mem::take(&mut want[i]);
                e.judge(r.map(|o| o.map(|(a, b)| (a as *const u8, b))), (db + i * HALF) as *const u8, lens[i]);
                e.st.cases += 1;
                e.st.distinct += 1;
                e.st.bytes += ns[i] as u64;
            }
            *e.st.groups.entry("chunk events ordered as chosen".into()).or_default() += held;
            *e.st.groups.entry("chunk events that could not be ordered as chosen".into()).or_default() += missed;
            *e.st.groups.entry(format!("orders of two simultaneous calls on {} pool(s)", pools.len())).or_default() += 1;
        }
    }
    e.st.samples.push(format!("two simultaneous calls, different inputs, variants and lengths, {}", if shared { "one pool: all orders of the events of the first chunks" } else { "a pool each: all orders of the start and finish events of all four chunks" }));
}
