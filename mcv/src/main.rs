#![allow(static_mut_refs, dead_code, clippy::all)]
//! C19 and C22: every vector operation and helper, on every instruction set that offers it, against its scalar
//! definition, over exhaustively enumerated operands.
mod extra;
mod helpers;
#[path = "../../mc/src/host.rs"]
mod host;
mod op;
mod ops;
use op::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub static mut CFG: &str = "vec";
pub static mut CUR: (String, &str) = (String::new(), "native");
pub fn violation(what: &str, input: &str) -> ! {
    let (name, isa) = unsafe { (CUR.0.clone(), CUR.1) };
    let s = format!("VIOL {{\"what\":{},\"op\":{},\"isa\":{},\"cfg\":{},\"note\":\"\",\"src_len\":0,\"dst_len\":0,\"input\":{}}}\n", jstr(what), jstr(&name), jstr(isa), jstr(unsafe { CFG }), jstr(input));
    host::write_all(1, s.as_bytes());
    host::exit(1)
}
#[cfg(not(target_arch = "wasm32"))]
extern "C" fn on_fault(sig: i32, _i: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    violation(&format!("signal {sig} (bad access, trap or illegal instruction)"), "");
}

#[derive(Default)]
pub struct Stat {
    pub calls: u64,
    pub distinct: u64,
    pub bytes: u64,
    pub groups: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
pub struct E {
    pub st: Stat,
    pub thorough: bool,
    pub shard: usize,
    pub nshards: usize,
    pub isa: usize,
    counter: usize,
}

/// One operation on one instruction set, under enumeration.
struct R<'a> {
    d: &'a D,
    f: F,
    o: B,
    p: B,
    n: u64,
}
impl<'a> R<'a> {
    #[inline(always)]
    fn go(&mut self, a: &B, b: &B, c: &B) {
        unsafe { (self.f)(a, b, c, &mut self.o) };
        (self.d.spec)(a, b, c, &mut self.p);
        self.n += 1;
        if self.o != self.p {
            self.bad(a, b, c)
        }
    }
    #[cold]
    fn bad(&self, a: &B, b: &B, c: &B) -> ! {
        violation(&format!("returns {} instead of {}", hexs(&self.o.0), hexs(&self.p.0)), &format!("{} {} {}", hexs(&a.0), hexs(&b.0), hexs(&c.0)))
    }
}

const Y16: usize = 48;
fn alpha16() -> Vec<u16> {
    let mut v: Vec<u16> = vec![0, 1, 2, 3, 0xff, 0x100, 0x101, 0x7f, 0x80, 0x81, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0xff00, 0x00fe, 0x7f80, 0x7f7f, 0x8080, 0x55aa, 0xaa55, 0x0fff, 0xf000];
    for k in 0..16 {
        v.push(1 << k);
        v.push(!(1 << k));
        v.push((1u16 << k).wrapping_sub(1));
    }
    v.sort();
    v.dedup();
    v
}
fn alpha32(rich: bool) -> Vec<u32> {
    let mut v: Vec<u32> = vec![0x01010101, 0x80808080, 0x7f7f7f7f, 0x55aa55aa, 0xdeadbeef, 0x10ffff, 0x110000, 0xd800, 0xdfff, 0xffff0000, 0x0000ffff, 0x00ff00ff, 0xff00ff00];
    for k in 0..32 {
        for x in [1u32 << k, (1u32 << k).wrapping_sub(1), (1u32 << k) + 1, 3u32.wrapping_shl(k)] {
            v.push(x);
            v.push(!x);
            v.push(x.wrapping_neg());
        }
        if rich {
            for j in 0..k {
                v.push(1 << k | 1 << j);
                v.push(!(1 << k | 1 << j));
                v.push((1u32 << k) - (1u32 << j));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn alpha64() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0x0101010101010101, 0x8080808080808080, 0x0123456789abcdef, 0xfedcba9876543210];
    for k in 0..64 {
        for x in [1u64 << k, (1u64 << k).wrapping_sub(1), (1u64 << k) + 1] {
            v.push(x);
            v.push(!x);
            v.push(x.wrapping_neg());
        }
    }
    v.sort();
    v.dedup();
    v
}
fn backgrounds() -> Vec<B> {
    let mut v = vec![Z, B([0xff; 32]), B([0x80; 32]), B([0x7f; 32])];
    let f = |g: &dyn Fn(usize) -> u8| {
        let mut b = Z;
        for i in 0..32 {
            b.0[i] = g(i);
        }
        b
    };
    v.push(f(&|i| (i * 7 + 1) as u8));
    v.push(f(&|i| (255 - i * 5) as u8));
    v.push(f(&|i| i as u8));
    v.push(f(&|i| b"0123456789abcdefABCDEF"[(i * 5 + 3) % 22]));
    v.push(f(&|i| b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[(i * 11 + 1) % 32]));
    v.push(f(&|i| b"azAZ09bcyQ"[i % 10]));
    v
}

impl E {
    pub fn mine(&mut self) -> bool {
        self.counter += 1;
        (self.counter - 1) % self.nshards == self.shard
    }
    fn each(&mut self, list: &[D], part: &str, f: &mut dyn FnMut(&mut R, bool)) {
        let k = self.isa;
        for d in list {
            let Some(run) = d.run[k] else { continue };
            if !self.mine() {
                continue;
            }
            unsafe { CUR = (d.name.clone(), ISAS[k]) };
            let mut r = R { d, f: run, o: Z, p: Z, n: 0 };
            let t = self.thorough;
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut r, t))) {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                violation(&format!("panicked: {m}"), "");
            }
            self.st.calls += r.n;
            self.st.distinct += r.n;
            self.st.bytes += r.n * d.w as u64;
            *self.st.groups.entry(format!("operations in {part}")).or_default() += (r.n > 0) as u64;
        }
    }
}

/// every byte position of every operand x every value x every background of the others
fn part_bytes(r: &mut R, _t: bool) {
    let bgs = backgrounds();
    let w = r.d.w.min(32);
    let operands = match r.d.kind {
        Kind::Tri8 => 3,
        Kind::Bin8 | Kind::Bin16 | Kind::Bin32 | Kind::Bin64 | Kind::Mv2 | Kind::Txt2 => 2,
        _ => 1,
    };
    for x in 0..bgs.len() {
        for y in 0..if operands > 1 { bgs.len() } else { 1 } {
            let mut v = [bgs[x], bgs[y], bgs[(x * 3 + y * 5 + 4) % bgs.len()]];
            if r.d.kind == Kind::RedMask {
                v[0].0.iter_mut().for_each(|b| *b = if *b >= 0x80 { 0xff } else { 0 });
            }
            for k in 0..operands {
                for i in 0..w {
                    let old = v[k].0[i];
                    for c in 0..=255u8 {
                        if r.d.kind == Kind::RedMask && c != 0 && c != 255 {
                            continue;
                        }
                        if c == old && (i, k) != (0, 0) {
                            continue;
                        }
                        v[k].0[i] = c;
                        r.go(&v[0], &v[1], &v[2]);
                    }
                    v[k].0[i] = old;
                }
            }
        }
    }
}

fn put<T: Copy>(b: &mut B, i: usize, x: T) {
    s(b, i, x)
}

/// operand values per lane, according to the kind of the operation
fn part_lanes(r: &mut R, t: bool) {
    let (mut a, mut b, mut c) = (Z, Z, Z);
    match r.d.kind {
        Kind::Un8 | Kind::S8 => {
            // every value in every lane, with every offset to its neighbours
            for x in 0..=255u8 {
                for m in 0..=255u8 {
                    for i in 0..32 {
                        a.0[i] = x.wrapping_add(m.wrapping_mul(i as u8));
                    }
                    r.go(&a, &b, &c);
                }
            }
        }
        Kind::Un16 | Kind::S16 => {
            for x in 0..=65535u16 {
                for m in [0u16, 1, 0x1111, 0x8001, 0x00ff, 0xff00] {
                    for i in 0..16 {
                        put(&mut a, i, x.wrapping_add(m.wrapping_mul(i as u16)));
                    }
                    r.go(&a, &b, &c);
                }
            }
        }
        Kind::Un32 | Kind::S32 => {
            for hi in [0u32, 0xffff, 0x8000, 0x1234, 0x00ff, 0xff00] {
                for x in 0..=65535u32 {
                    for i in 0..8 {
                        put(&mut a, i, (x.wrapping_add(i as u32 * 0x1357) & 0xffff) | hi << 16);
                    }
                    r.go(&a, &b, &c);
                    for i in 0..8 {
                        put(&mut a, i, (x.wrapping_add(i as u32 * 0x1357)) << 16 | hi);
                    }
                    r.go(&a, &b, &c);
                }
            }
            if t {
                // all values, spread over the lanes
                for x in 0..1u32 << 29 {
                    for i in 0..8 {
                        put(&mut a, i, x * 8 + (i as u32 + x) % 8);
                    }
                    r.go(&a, &b, &c);
                }
            }
        }
        Kind::S64 => {
            for x in alpha64() {
                put(&mut a, 0, x);
                r.go(&a, &b, &c);
            }
        }
        Kind::Bin8 => {
            // every pair in every lane
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    for i in 0..32 {
                        a.0[i] = x.wrapping_add(17 * i as u8);
                        b.0[i] = y.wrapping_add(31u8.wrapping_mul(i as u8));
                    }
                    r.go(&a, &b, &c);
                }
            }
        }
        Kind::Bin16 => {
            let al = alpha16();
            for (j, _) in al.iter().enumerate() {
                for x in 0..=65535u16 {
                    for i in 0..16 {
                        put(&mut a, i, x.wrapping_add(0x1357u16.wrapping_mul(i as u16)));
                        put(&mut b, i, al[(i + j) % al.len()]);
                    }
                    r.go(&a, &b, &c);
                    r.go(&b, &a, &c);
                }
            }
            if t {
                // all pairs, spread over the lanes
                let n = (r.d.w / 2) as u32;
                for x in 0..=65535u16 {
                    for i in 0..16 {
                        put(&mut a, i, x.wrapping_add(0x9e37u16.wrapping_mul(i as u16)));
                    }
                    for y in 0..65536 / n {
                        for i in 0..16 {
                            put(&mut b, i, (y * n + (i as u32 + x as u32) % n) as u16);
                        }
                        r.go(&a, &b, &c);
                    }
                }
            }
        }
        Kind::Bin32 => {
            let al = alpha32(t);
            for j in 0..al.len() {
                for k in 0..al.len() {
                    for i in 0..8 {
                        put(&mut a, i, al[(j + i) % al.len()]);
                        put(&mut b, i, al[(k + 3 * i) % al.len()]);
                    }
                    r.go(&a, &b, &c);
                }
            }
            // pairs of 16-bit halves over the 16-bit alphabet
            let al = alpha16();
            for j in 0..al.len() {
                for k in 0..al.len() {
                    for l in 0..al.len() {
                        for i in 0..8 {
                            put(&mut a, i, al[(j + i) % al.len()] as u32 | (al[k] as u32) << 16);
                            put(&mut b, i, al[l] as u32 | (al[(l * 7 + j + i) % al.len()] as u32) << 16);
                        }
                        r.go(&a, &b, &c);
                    }
                }
            }
        }
        Kind::Bin64 => {
            let al = alpha64();
            for j in 0..al.len() {
                for k in 0..al.len() {
                    for i in 0..4 {
                        put(&mut a, i, al[(j + i) % al.len()]);
                        put(&mut b, i, al[(k + 3 * i) % al.len()]);
                    }
                    r.go(&a, &b, &c);
                }
            }
        }
        Kind::Tri8 => {
            let al: Vec<u8> = (0..8).flat_map(|k| [1u8 << k, !(1u8 << k), (1u8 << k) - 1]).chain([0, 255, 0x55, 0xaa, 0x80, 0x7f, 0x81, 0x3c, 0xc3]).collect();
            for x in 0..=255u8 {
                for j in 0..al.len() {
                    for k in 0..al.len() {
                        for i in 0..32 {
                            a.0[i] = x.wrapping_add(17 * i as u8);
                            b.0[i] = al[(j + i) % al.len()];
                            c.0[i] = al[(k + 3 * i) % al.len()];
                        }
                        r.go(&a, &b, &c);
                        r.go(&b, &c, &a);
                        r.go(&c, &a, &b);
                    }
                }
            }
        }
        Kind::Red | Kind::RedMask => {
            // every subset of 16 lanes, repeated, mirrored, one half full or empty
            let vals: &[(u8, u8)] = if r.d.kind == Kind::Red { &[(0, 0xff), (0, 0x80), (0x7f, 0x80), (1, 0), (0x7f, 0xff), (0, 1), (0x80, 0)] } else { &[(0, 0xff)] };
            for &(u, v) in vals {
                for m in 0..=0xffffu32 {
                    let ms = [m | m << 16, m | m.reverse_bits(), m, m << 16, m | 0xffff0000, m << 16 | 0xffff, m | (m ^ 0xffff) << 16];
                    for m in &ms[..if r.d.w == 32 { 7 } else { 1 }] {
                        for i in 0..32 {
                            a.0[i] = if m >> i & 1 == 1 { v } else { u };
                        }
                        r.go(&a, &b, &c);
                    }
                }
                if t && r.d.w == 32 {
                    // every subset of lanes 8..24 x every subset of the rest in pairs
                    for m in 0..1u32 << 24 {
                        let k = (m & 0xffff) << 8 | m >> 16 & 15 | (m >> 20) << 28;
                        for i in 0..32 {
                            a.0[i] = if k >> i & 1 == 1 { v } else { u };
                        }
                        r.go(&a, &b, &c);
                    }
                }
            }
        }
        Kind::Mv1 | Kind::Mv2 => {
            // every pair of byte positions exchanged with marked values
            let bg = backgrounds();
            for p in [4, 5] {
                for i in 0..32 {
                    for j in 0..32 {
                        let (mut x, mut y) = (bg[p], bg[9 - p]);
                        for v in [0u8, 0xff, 0xa5] {
                            x.0[i] = v;
                            y.0[j] = !v;
                            r.go(&x, &y, &c);
                        }
                    }
                }
            }
        }
        Kind::Txt2 => {
            // every value of every pair of twins, every pair of positions over a boundary alphabet
            let bgs = backgrounds();
            (a, b) = (bgs[7], bgs[7]);
            b.0.reverse();
            let al = b"\x00 /09:@AFGZ[`afgz{\x7f\x80\x81\xb0\xc1\xe1\xff\x10\x16\x19\x20-";
            for i in 0..32 {
                for j in 0..32 {
                    let old = (a.0[i], b.0[j]);
                    if i == j || (i + 16) % 32 == j {
                        for x in 0..=255u8 {
                            a.0[i] = x;
                            for y in 0..=255u8 {
                                b.0[j] = y;
                                r.go(&a, &b, &c);
                            }
                        }
                    } else {
                        for &x in al {
                            for &y in al {
                                a.0[i] = x;
                                b.0[j] = y;
                                r.go(&a, &b, &c);
                            }
                        }
                    }
                    (a.0[i], b.0[j]) = old;
                }
            }
        }
        Kind::Txt => {
            // every value of every pair of neighbours, and every pair of positions over a boundary alphabet
            let bgs = backgrounds();
            let w = r.d.w;
            for bg in [7, 8, 9] {
                a = bgs[bg];
                for i in 0..w - 1 {
                    let old = (a.0[i], a.0[i + 1]);
                    for x in 0..=255u8 {
                        a.0[i] = x;
                        for y in 0..=255u8 {
                            a.0[i + 1] = y;
                            r.go(&a, &b, &c);
                        }
                    }
                    (a.0[i], a.0[i + 1]) = old;
                }
                let al = b"\x00 /09:@AFGZ[`afgz{\x7f\x80\x81\xb0\xc1\xe1\xff+-_=";
                for i in 0..w {
                    for j in 0..i {
                        let old = (a.0[i], a.0[j]);
                        for &x in al {
                            for &y in al {
                                a.0[i] = x;
                                a.0[j] = y;
                                r.go(&a, &b, &c);
                            }
                        }
                        (a.0[i], a.0[j]) = old;
                    }
                }
            }
            // every value of every pair of twins in the two halves of the vector, of a half and of a quarter
            for bg in [7, 8] {
                a = bgs[bg];
                for d in [w / 2, w / 4, w / 8] {
                    for i in 0..w - d {
                        let old = (a.0[i], a.0[i + d]);
                        for x in 0..=255u8 {
                            a.0[i] = x;
                            for y in 0..=255u8 {
                                a.0[i + d] = y;
                                r.go(&a, &b, &c);
                            }
                        }
                        (a.0[i], a.0[i + d]) = old;
                    }
                }
            }
            // all lanes the same value, and all rotations of the whole byte range
            for x in 0..=255u8 {
                r.go(&B([x; 32]), &b, &c);
                for m in 1..=255u8 {
                    for i in 0..32 {
                        a.0[i] = x.wrapping_add(m.wrapping_mul(i as u8));
                    }
                    r.go(&a, &b, &c);
                }
            }
        }
    }
    b = Z;
    let _ = b;
}

fn main() {
    let args: Vec<String> = host::args();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string()) };
    let prop = args.get(2).cloned().unwrap_or_default();
    let part = get("--part", "");
    let shard = get("--shard", "0/1");
    let (x, y) = shard.split_once('/').unwrap();
    let isa = get("--isa", ISAS[NISA - 1]);
    let mut e = E { st: Stat::default(), thorough: get("--tier", "quick") == "thorough", shard: x.parse().unwrap(), nshards: y.parse().unwrap(), isa: ISAS.iter().position(|&s| s == isa).unwrap_or(NISA - 1), counter: 0 };
    unsafe {
        CFG = Box::leak(get("--cfg", "vec").into_boxed_str());
        CUR.1 = Box::leak(isa.into_boxed_str());
    }
    #[cfg(not(target_arch = "wasm32"))]
    unsafe {
        let mut a: libc::sigaction = core::mem::zeroed();
        a.sa_sigaction = on_fault as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
            libc::sigaction(s, &a, core::ptr::null_mut());
        }
        std::panic::set_hook(Box::new(|_| {}));
    }
    // a panic ends the program there
    #[cfg(target_arch = "wasm32")]
    {
        host::trap(|| violation("trap: access outside the memory, or another fault", ""));
        std::panic::set_hook(Box::new(|i| violation(&format!("panicked: {i}"), "")));
    }
    let list = if prop == "C19" { ops::list() } else { helpers::list() };
    match part.as_str() {
        "bytes" => {
            e.each(&list, "bytes", &mut part_bytes);
            e.st.samples.push("every byte position of every operand x 256 values x all backgrounds".into());
        }
        "lanes" => {
            e.each(&list, "lanes", &mut part_lanes);
            e.st.samples.push(format!(
                "8-bit lanes: all 65,536 pairs in every lane; 16-bit: all values x {} boundary values both ways{}; 32-bit: all pairs of {} boundary values; 64-bit: {} boundary values; tests: all 2^16 lane subsets",
                alpha16().len(),
                if e.thorough { " and all 2^32 pairs" } else { "" },
                alpha32(e.thorough).len(),
                alpha64().len()
            ));
        }
        _ => extra::run(&mut e, &prop, &part),
    }
    let s = &e.st;
    let g: Vec<String> = s.groups.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).chain([format!("\"distinct\":{}", s.distinct)]).collect();
    let q: Vec<String> = s.samples.iter().map(|k| jstr(k)).collect();
    let line = format!("STAT {{\"cases\":{},\"calls\":{},\"accepted\":{},\"rejected\":0,\"bytes\":{},\"groups\":{{{}}},\"samples\":[{}]}}", s.calls, s.calls, s.calls, s.bytes, g.join(","), q.join(","));
    host::write_all(1, format!("{line}\n").as_bytes());
}
