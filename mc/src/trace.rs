//! Instruction-level monitor: single-steps the code under test (EFLAGS.TF), emulates CPUID and XGETBV of a chosen
//! virtual CPU, and classifies every executed instruction of the executable by the CPU feature it needs.
use crate::env;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const SSE3: u32 = 1;
pub const SSSE3: u32 = 2;
pub const SSE41: u32 = 4;
/// with POPCNT
pub const SSE42: u32 = 8;
pub const AVX: u32 = 16;
/// with BMI1, BMI2, LZCNT, FMA, F16C, MOVBE (Haswell)
pub const AVX2: u32 = 32;
pub const AVX512: u32 = 64;
pub const OTHER: u32 = 128;
const NAMES: [&str; 8] = ["SSE3", "SSSE3", "SSE4.1", "SSE4.2/POPCNT", "AVX", "AVX2/BMI/FMA", "AVX-512", "another extension"];

pub struct Cpu {
    pub name: &'static str,
    /// instructions that may be executed
    pub allowed: u32,
    pub max_leaf: u32,
    /// CPUID.1:ECX mask
    pub c1: u32,
    /// CPUID.7:EBX mask
    pub b7: u32,
    /// CPUID.80000001H:ECX mask
    pub ext: u32,
    pub xcr0: u64,
}
const C_SSE3: u32 = 1;
const C_SSSE3: u32 = 1 << 9;
const C_SSE41: u32 = 1 << 19;
const C_SSE42: u32 = 1 << 20;
const C_POPCNT: u32 = 1 << 23;
const C_XSAVE: u32 = 1 << 26 | 1 << 27;
const C_OSXSAVE: u32 = 1 << 27;
const C_AVX: u32 = 1 << 28;
const C_CX16: u32 = 1 << 13;
const C_HASWELL: u32 = 1 << 12 | 1 << 22 | 1 << 29 | 1 << 1 | 1 << 25 | 1 << 30;
const UP_SSSE3: u32 = C_CX16 | C_SSE3 | C_SSSE3;
const UP_SSE41: u32 = UP_SSSE3 | C_SSE41;
const UP_SSE42: u32 = UP_SSE41 | C_SSE42 | C_POPCNT;
const UP_AVX: u32 = UP_SSE42 | C_AVX | C_XSAVE;
const UP_AVX2: u32 = UP_AVX | C_HASWELL;
const B_AVX2: u32 = 1 << 3 | 1 << 5 | 1 << 8;
const A_SSSE3: u32 = SSE3 | SSSE3;
const A_SSE41: u32 = A_SSSE3 | SSE41;
const A_SSE42: u32 = A_SSE41 | SSE42;
const A_AVX: u32 = A_SSE42 | AVX;
const A_AVX2: u32 = A_AVX | AVX2;

pub const CPUS: &[Cpu] = &[
    Cpu { name: "baseline (SSE2)", allowed: 0, max_leaf: 1, c1: 0, b7: 0, ext: 0, xcr0: 0 },
    Cpu { name: "SSE3", allowed: SSE3, max_leaf: 5, c1: C_SSE3 | C_CX16, b7: 0, ext: 1, xcr0: 0 },
    Cpu { name: "SSSE3", allowed: A_SSSE3, max_leaf: 10, c1: UP_SSSE3, b7: 0, ext: 1, xcr0: 0 },
    Cpu { name: "SSE4.1", allowed: A_SSE41, max_leaf: 10, c1: UP_SSE41, b7: 0, ext: 1, xcr0: 0 },
    Cpu { name: "SSE4.1 without SSSE3 flag", allowed: A_SSE41, max_leaf: 10, c1: UP_SSE41 & !C_SSSE3, b7: 0, ext: 1, xcr0: 0 },
    Cpu { name: "SSE4.2", allowed: A_SSE42, max_leaf: 11, c1: UP_SSE42, b7: 0, ext: 1, xcr0: 0 },
    Cpu { name: "AVX", allowed: A_AVX, max_leaf: 13, c1: UP_AVX, b7: 0, ext: 1, xcr0: 7 },
    Cpu { name: "AVX2", allowed: A_AVX2, max_leaf: 13, c1: UP_AVX2, b7: B_AVX2, ext: 0x21, xcr0: 7 },
    Cpu { name: "AVX2, operating system does not save YMM", allowed: A_SSE42, max_leaf: 13, c1: UP_AVX2, b7: B_AVX2, ext: 0x21, xcr0: 3 },
    Cpu { name: "AVX2, operating system does not use XSAVE", allowed: A_SSE42, max_leaf: 13, c1: UP_AVX2 & !C_OSXSAVE, b7: B_AVX2, ext: 0x21, xcr0: 0 },
    Cpu { name: "AVX2 flag beyond the highest leaf", allowed: A_AVX, max_leaf: 6, c1: UP_AVX, b7: B_AVX2, ext: 1, xcr0: 7 },
    Cpu { name: "this CPU", allowed: !0, max_leaf: u32::MAX, c1: u32::MAX, b7: u32::MAX, ext: u32::MAX, xcr0: u64::MAX },
];

static CPU: AtomicUsize = AtomicUsize::new(0);
static ALLOWED: AtomicUsize = AtomicUsize::new(0);
static TEXT_LO: AtomicUsize = AtomicUsize::new(0);
static TEXT_HI: AtomicUsize = AtomicUsize::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static CPUIDS: AtomicU64 = AtomicU64::new(0);
/// executed instructions of the executable per feature class (index 8: baseline)
pub static mut CLASS: [u64; 9] = [0; 9];
pub static ON: AtomicBool = AtomicBool::new(false);

/// Range of the executable's own code.
pub fn text_range() -> (usize, usize) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_str().unwrap();
    let (mut lo, mut hi) = (usize::MAX, 0);
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let mut f = l.split_whitespace();
        let (r, p) = (f.next().unwrap(), f.next().unwrap());
        if l.ends_with(exe) && p.contains('x') {
            let (a, b) = r.split_once('-').unwrap();
            lo = lo.min(usize::from_str_radix(a, 16).unwrap());
            hi = hi.max(usize::from_str_radix(b, 16).unwrap());
        }
    }
    assert!(lo < hi);
    (lo, hi)
}

/// Feature bits the instruction at `p` needs; second: 1 CPUID, 2 XGETBV.
pub unsafe fn classify(p: *const u8) -> (u32, u8) {
    let mut i = 0;
    let (mut p66, mut pf2, mut pf3) = (false, false, false);
    loop {
        match *p.add(i) {
            0x66 => p66 = true,
            0xF2 => pf2 = true,
            0xF3 => pf3 = true,
            0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => {}
            _ => break,
        }
        i += 1;
        if i > 14 {
            return (0, 0);
        }
    }
    if *p.add(i) & 0xF0 == 0x40 {
        i += 1;
    }
    let op = *p.add(i);
    match op {
        0x62 => return (AVX512, 0),
        0xC5 => {
            let v = *p.add(i + 1);
            let l = v & 4 != 0;
            let pp = v & 3;
            return (vex(1, pp, l, *p.add(i + 2)), 0);
        }
        0xC4 => {
            let m = *p.add(i + 1) & 31;
            let v = *p.add(i + 2);
            return (vex(m, v & 3, v & 4 != 0, *p.add(i + 3)), 0);
        }
        0x0F => {}
        _ => return (0, 0),
    }
    let o = *p.add(i + 1);
    match o {
        0xA2 => (0, 1),
        0x01 if *p.add(i + 2) == 0xD0 => (0, 2),
        0x0F => (OTHER, 0),
        0xF0 if pf2 => (SSE3, 0),
        0x7C | 0x7D | 0xD0 if pf2 || p66 => (SSE3, 0),
        0x12 if pf2 || pf3 => (SSE3, 0),
        0x16 if pf3 => (SSE3, 0),
        0xB8 if pf3 => (SSE42, 0),
        0xBD if pf3 => (AVX2, 0),
        0x38 => match *p.add(i + 2) {
            0x00..=0x0B | 0x1C..=0x1E => (SSSE3, 0),
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x38..=0x41 => (SSE41, 0),
            0x37 => (SSE42, 0),
            0xF0 | 0xF1 if pf2 => (SSE42, 0),
            0xF0 | 0xF1 => (AVX2, 0),
            _ => (OTHER, 0),
        },
        0x3A => match *p.add(i + 2) {
            0x0F => (SSSE3, 0),
            0x08..=0x0E | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => (SSE41, 0),
            0x60..=0x63 => (SSE42, 0),
            _ => (OTHER, 0),
        },
        _ => (0, 0),
    }
}

fn vex(map: u8, pp: u8, l: bool, op: u8) -> u32 {
    match map {
        1 => {
            let int = matches!(op, 0x60..=0x6D | 0x70..=0x76 | 0xD1..=0xD5 | 0xD7..=0xE5 | 0xE8..=0xEF | 0xF1..=0xFE);
            if l && pp != 0 && int {
                AVX2
            } else {
                AVX
            }
        }
        2 => match op {
            0x58 | 0x59 | 0x5A | 0x78 | 0x79 | 0x36 | 0x45..=0x47 | 0x8C | 0x8E | 0x90..=0x93 => AVX2,
            0x13 | 0x96..=0x9F | 0xA6..=0xAF | 0xB6..=0xBF => AVX2,
            0xF2 | 0xF3 | 0xF5 | 0xF6 | 0xF7 => AVX2,
            0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x40 if l => AVX2,
            0xCF | 0xD2..=0xD3 | 0xDA | 0x50..=0x53 => OTHER,
            0xDB..=0xDF => OTHER | AVX,
            _ => AVX,
        },
        3 => match op {
            0x00..=0x02 | 0x38 | 0x39 | 0x46 | 0xF0 | 0x1D => AVX2,
            0x0E | 0x0F | 0x42 | 0x4C if l => AVX2,
            0x44 | 0xCE | 0xCF | 0xDF => OTHER,
            _ => AVX,
        },
        _ => OTHER,
    }
}

unsafe fn emulate_cpuid(g: &mut [i64]) {
    use core::arch::x86_64::__cpuid_count;
    let c = &CPUS[CPU.load(Relaxed)];
    let leaf = g[libc::REG_RAX as usize] as u32;
    let sub = g[libc::REG_RCX as usize] as u32;
    let mut r = __cpuid_count(leaf, sub);
    if c.max_leaf != u32::MAX {
        let ext = leaf >= 0x8000_0000;
        let max = if ext { 0x8000_0008 } else { c.max_leaf };
        if leaf > max {
            // out of range: real CPUs answer with the data of the highest basic leaf; with zeros it is the same for us
            r.eax = 0;
            r.ebx = 0;
            r.ecx = 0;
            r.edx = 0;
            if c.max_leaf == 6 && leaf == 7 {
                // this CPU answers a leaf it does not have with stray bits
                r.ebx = !0;
                r.ecx = !0;
                r.edx = !0;
            }
        }
        match leaf {
            0 => r.eax = c.max_leaf,
            1 => r.ecx &= c.c1,
            7 if leaf <= max && sub == 0 => {
                r.eax = 0;
                r.ebx &= c.b7;
                r.ecx = 0;
                r.edx = 0;
            }
            7 if leaf <= max => {
                r.eax = 0;
                r.ebx = 0;
                r.ecx = 0;
                r.edx = 0;
            }
            0x8000_0000 => r.eax = max,
            0x8000_0001 => r.ecx &= c.ext,
            _ => {}
        }
    }
    g[libc::REG_RAX as usize] = r.eax as i64;
    g[libc::REG_RBX as usize] = r.ebx as i64;
    g[libc::REG_RCX as usize] = r.ecx as i64;
    g[libc::REG_RDX as usize] = r.edx as i64;
    CPUIDS.fetch_add(1, Relaxed);
}

unsafe fn emulate_xgetbv(g: &mut [i64]) {
    let c = &CPUS[CPU.load(Relaxed)];
    if c.max_leaf != u32::MAX && c.c1 & C_OSXSAVE == 0 {
        env::IN_CALL.store(false, Relaxed);
        env::violation("executes XGETBV although CPUID says the operating system has not enabled XSAVE (illegal instruction on such a CPU)");
    }
    let (lo, hi): (u32, u32);
    core::arch::asm!("xgetbv", in("ecx") 0, out("eax") lo, out("edx") hi);
    let v = (lo as u64 | (hi as u64) << 32) & c.xcr0;
    g[libc::REG_RAX as usize] = (v & 0xffff_ffff) as i64;
    g[libc::REG_RDX as usize] = (v >> 32) as i64;
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let g: &mut [i64] = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        loop {
            let rip = g[libc::REG_RIP as usize] as usize;
            if rip < TEXT_LO.load(Relaxed) || rip >= TEXT_HI.load(Relaxed) {
                return;
            }
            STEPS.fetch_add(1, Relaxed);
            let (need, special) = classify(rip as *const u8);
            #[allow(static_mut_refs)]
            if need == 0 {
                CLASS[8] += 1;
            } else {
                CLASS[need.trailing_zeros() as usize] += 1;
            }
            let bad = need & !(ALLOWED.load(Relaxed) as u32);
            if bad != 0 && ON.load(Relaxed) {
                env::IN_CALL.store(false, Relaxed);
                let code = core::slice::from_raw_parts(rip as *const u8, 12);
                env::violation(&format!(
                    "executes an instruction that needs {} on a CPU without it (virtual CPU: {}; code bytes {})",
                    NAMES[bad.trailing_zeros() as usize],
                    CPUS[CPU.load(Relaxed)].name,
                    env::hex(code)
                ));
            }
            match special {
                1 => {
                    emulate_cpuid(g);
                    // the instruction may carry prefixes; CPUID itself is the last two bytes
                    let mut n = 0;
                    while *((rip + n) as *const u8) != 0xA2 {
                        n += 1;
                    }
                    g[libc::REG_RIP as usize] = (rip + n + 1) as i64;
                }
                2 => {
                    emulate_xgetbv(g);
                    let mut n = 0;
                    while *((rip + n) as *const u8) != 0xD0 {
                        n += 1;
                    }
                    g[libc::REG_RIP as usize] = (rip + n + 1) as i64;
                }
                _ => return,
            }
        }
    }
}

/// Chooses the virtual CPU; `allowed` overrides its instruction set if given.
pub fn install(cpu: usize, allowed: Option<u32>) {
    let (lo, hi) = text_range();
    TEXT_LO.store(lo, Relaxed);
    TEXT_HI.store(hi, Relaxed);
    CPU.store(cpu, Relaxed);
    ALLOWED.store(allowed.unwrap_or(CPUS[cpu].allowed) as usize, Relaxed);
    unsafe {
        let mut a: libc::sigaction = core::mem::zeroed();
        a.sa_sigaction = on_trap as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, core::ptr::null_mut());
    }
}

#[inline(always)]
pub unsafe fn start() {
    ON.store(true, Relaxed);
    core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop");
}
#[inline(always)]
pub unsafe fn stop() {
    core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    ON.store(false, Relaxed);
}

/// The monitor must see what it claims to see: runs one instruction of each class and checks that it is noticed.
pub fn self_test() {
    unsafe {
        let before = CLASS;
        let saved = ALLOWED.swap(!0, Relaxed);
        start();
        core::arch::asm!("pshufb xmm0, xmm0", "pminuw xmm0, xmm0", "lddqu xmm0, [rsp]", "popcnt eax, eax", out("eax") _, out("xmm0") _);
        stop();
        ALLOWED.store(saved, Relaxed);
        let after = CLASS;
        for (k, n) in [(0, 1), (1, 1), (2, 1), (3, 1)] {
            assert_eq!(after[k] - before[k], n, "instruction monitor is blind to {}", NAMES[k]);
        }
        assert!(after[8] > before[8]);
        if is_avx2() {
            let before = CLASS;
            let saved = ALLOWED.swap(!0, Relaxed);
            start();
            core::arch::asm!("vpxor xmm0, xmm0, xmm0", "vpshufb ymm0, ymm0, ymm0", "vpand ymm0, ymm0, ymm0", "vzeroupper", out("xmm0") _, out("xmm1") _);
            stop();
            ALLOWED.store(saved, Relaxed);
            let after = CLASS;
            assert_eq!((after[4] - before[4], after[5] - before[5]), (2, 2), "instruction monitor is blind to AVX");
        }
    }
}
fn is_avx2() -> bool {
    // not is_x86_feature_detected: that would fill the detection cache
    unsafe { core::arch::x86_64::__cpuid_count(7, 0).ebx & (1 << 5) != 0 }
}
