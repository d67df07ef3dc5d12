//! Execution environment: guarded memory, crash reporting, guarded allocator, statistics output.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub const PAGE: usize = 4096;

// ---------------------------------------------------------------- current case (for crash reports)
pub struct Case {
    pub prop: [u8; 8],
    pub op: crate::ops::Op,
    pub src: *const u8,
    pub src_len: usize,
    pub dst_off: usize,
    pub dst_len: usize,
    pub src_off: usize,
    pub note: &'static str,
}
pub static mut CASE: Case = Case {
    prop: [0; 8],
    op: crate::ops::Op::IsAscii,
    src: core::ptr::null(),
    src_len: 0,
    dst_off: 0,
    dst_len: 0,
    src_off: 0,
    note: "",
};
pub static IN_CALL: AtomicBool = AtomicBool::new(false);
pub static EXPECT_PANIC: AtomicBool = AtomicBool::new(false);
pub static PROGRESS: AtomicUsize = AtomicUsize::new(0);
pub static mut ISA_NAME: &str = "native";
pub static mut CFG_NAME: &str = "?";

fn hexs(out: &mut String, b: &[u8]) {
    for x in b {
        out.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        out.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    hexs(&mut s, b);
    s
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reports a violation and ends the process (exit 1).
pub fn violation(what: &str) -> ! {
    crate::sched::freeze();
    EF_ON.store(false, Relaxed);
    let mut s = String::new();
    #[allow(static_mut_refs)]
    unsafe {
        let c = &CASE;
        let shown = c.src_len.min(1 << 20);
        s.push_str(&format!(
            "VIOL {{\"what\":{},\"op\":{},\"isa\":{},\"cfg\":{},\"note\":{},\"src_len\":{},\"src_off\":{},\"dst_len\":{},\"dst_off\":{},\"input\":\"",
            jstr(what),
            jstr(&c.op.name()),
            jstr(ISA_NAME),
            jstr(CFG_NAME),
            jstr(c.note),
            c.src_len,
            c.src_off,
            c.dst_len,
            c.dst_off
        ));
        if !c.src.is_null() && c.note != "giant" {
            hexs(&mut s, core::slice::from_raw_parts(c.src, shown));
        }
        s.push_str("\"}\n");
        write_all(1, s.as_bytes());
        exit(1)
    }
}

pub use crate::host::{args, exit, write_all};
/// after a trap (WebAssembly)
#[cfg(target_arch = "wasm32")]
fn on_trap() {
    if IN_CALL.swap(false, Relaxed) {
        violation("trap: access outside the memory, or another fault");
    }
}

#[cfg(not(target_arch = "wasm32"))]
extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    unsafe {
        if !IN_CALL.load(Relaxed) {
            let m = b"harness fault outside a call\n";
            libc::write(2, m.as_ptr().cast(), m.len());
            libc::_exit(70);
        }
        IN_CALL.store(false, Relaxed);
        let name = match sig {
            libc::SIGSEGV => "SIGSEGV: access outside the caller's buffers",
            libc::SIGBUS => "SIGBUS",
            libc::SIGILL => "SIGILL: illegal instruction",
            libc::SIGFPE => "SIGFPE",
            libc::SIGABRT => "SIGABRT: aborted",
            libc::SIGTRAP => "SIGTRAP: trap",
            _ => "signal",
        };
        let addr = if info.is_null() { 0 } else { (*info).si_addr() as usize };
        violation(&format!("{name} (fault address {addr:#x}, source at {:#x})", SRC_VIEW.load(Relaxed)));
    }
}
pub static SRC_VIEW: AtomicUsize = AtomicUsize::new(0);

#[cfg(not(target_arch = "wasm32"))]
static LAST_PROGRESS: AtomicUsize = AtomicUsize::new(usize::MAX);
#[cfg(not(target_arch = "wasm32"))]
static STALL: AtomicUsize = AtomicUsize::new(0);
#[cfg(not(target_arch = "wasm32"))]
extern "C" fn on_prof(_sig: i32, _info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    // every 5 s of CPU time
    let p = PROGRESS.load(Relaxed);
    if IN_CALL.load(Relaxed) && LAST_PROGRESS.swap(p, Relaxed) == p {
        if STALL.fetch_add(1, Relaxed) >= 8 {
            IN_CALL.store(false, Relaxed);
            violation("call does not return (over 40 s of CPU time in one call)");
        }
    } else {
        STALL.store(0, Relaxed);
    }
}

/// Processor time watchdog; not inherited by forked processes.
#[cfg(not(target_arch = "wasm32"))]
pub fn arm_timer() {
    unsafe {
        let tv = libc::timeval { tv_sec: 5, tv_usec: 0 };
        let it = libc::itimerval { it_interval: tv, it_value: tv };
        libc::setitimer(libc::ITIMER_PROF, &it, core::ptr::null_mut());
    }
}

pub fn install_handlers() {
    #[cfg(target_arch = "wasm32")]
    crate::host::trap(on_trap);
    #[cfg(not(target_arch = "wasm32"))]
    unsafe {
        let sz = 1 << 20;
        let stk = libc::mmap(core::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: stk, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, core::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = core::mem::zeroed();
            a.sa_sigaction = on_signal as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, core::ptr::null_mut());
        }
        let mut a: libc::sigaction = core::mem::zeroed();
        a.sa_sigaction = on_prof as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_RESTART;
        libc::sigaction(libc::SIGPROF, &a, core::ptr::null_mut());
        arm_timer();
    }
    std::panic::set_hook(Box::new(|info| {
        if EXPECT_PANIC.load(Relaxed) {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_CALL.swap(false, Relaxed) {
            violation(&format!("panicked: {msg} at {loc}"));
        }
        write_all(2, format!("harness panic: {msg} at {loc}\n").as_bytes());
        exit(71);
    }));
}

// ---------------------------------------------------------------- guarded memory
pub struct Arena {
    /// harness alias, always writable
    pub rw: *mut u8,
    /// what the code under test sees; inaccessible page on either side
    pub view: *mut u8,
    pub cap: usize,
}

impl Arena {
    /// The destination lies amid unused memory, the source (made last) ends where the memory ends.
    #[cfg(target_arch = "wasm32")]
    pub fn new(cap: usize, read_only: bool) -> Arena {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        let g = 16 * PAGE;
        let p = if read_only {
            // room for the heap below
            drop(std::hint::black_box(Vec::<u8>::with_capacity(192 << 20)));
            let n = (cap + g + 0xffff) >> 16;
            let old = core::arch::wasm32::memory_grow(0, n);
            assert!(old != usize::MAX);
            unsafe { (((old + n) << 16) as *mut u8).sub(cap) }
        } else {
            let mut v = Vec::<u8>::with_capacity(cap + 2 * g);
            let p = unsafe { ((v.as_mut_ptr().add(g) as usize + PAGE - 1) / PAGE * PAGE) as *mut u8 };
            core::mem::forget(v);
            p
        };
        Arena { rw: p, view: p, cap }
    }
    #[cfg(not(target_arch = "wasm32"))]
    pub fn new(cap: usize, read_only: bool) -> Arena {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let fd = libc::memfd_create(b"mc\0".as_ptr().cast(), 0);
            assert!(fd >= 0);
            assert!(libc::ftruncate(fd, cap as libc::off_t) == 0);
            let rw = libc::mmap(core::ptr::null_mut(), cap, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(rw != libc::MAP_FAILED);
            let g = 16 * PAGE;
            let res = libc::mmap(core::ptr::null_mut(), cap + 2 * g, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(res != libc::MAP_FAILED);
            let prot = if read_only { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
            let view = libc::mmap(res.add(g), cap, prot, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            assert!(view == res.add(g));
            libc::close(fd);
            Arena { rw: rw.cast(), view: view.cast(), cap }
        }
    }
    #[inline]
    pub fn off(&self, place: Place, len: usize) -> usize {
        match place {
            Place::Start => 0,
            Place::End => self.cap - len,
            Place::At(o) => PAGE + o,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Start,
    End,
    At(usize),
}

// ---------------------------------------------------------------- guarded allocator
pub struct Ef;
pub static EF_ON: AtomicBool = AtomicBool::new(false);
/// 0: block ends at the guard page, 1: block starts right after the guard page
pub static EF_MODE: AtomicUsize = AtomicUsize::new(0);
const SLOTS: usize = 24;
const SLOT_CAP: usize = 1024 * PAGE;
pub static mut EF_BASE: *mut u8 = core::ptr::null_mut();
static mut EF_USED: [Option<(usize, usize, usize)>; SLOTS] = [None; SLOTS]; // ptr, size, align
pub static EF_LIVE: AtomicUsize = AtomicUsize::new(0);
pub static EF_ALLOCS: AtomicUsize = AtomicUsize::new(0);

pub fn ef_init() {
    #[cfg(not(target_arch = "wasm32"))]
    unsafe {
        let stride = SLOT_CAP + PAGE;
        let total = SLOTS * stride + PAGE;
        let b = libc::mmap(core::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        for i in 0..SLOTS {
            libc::mprotect(b.add(PAGE + i * stride).cast(), SLOT_CAP, libc::PROT_READ | libc::PROT_WRITE);
        }
        EF_BASE = b;
    }
}

#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for Ef {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if EF_ON.load(Relaxed) && l.size() <= SLOT_CAP && !EF_BASE.is_null() {
            if l.size() == 0 {
                IN_CALL.store(false, Relaxed);
                violation("allocates zero bytes from the global allocator");
            }
            for i in 0..SLOTS {
                if EF_USED[i].is_none() {
                    let start = EF_BASE.add(PAGE + i * (SLOT_CAP + PAGE));
                    let p = if EF_MODE.load(Relaxed) == 0 {
                        ((start.add(SLOT_CAP) as usize - l.size()) / l.align() * l.align()) as *mut u8
                    } else {
                        start
                    };
                    EF_USED[i] = Some((p as usize, l.size(), l.align()));
                    EF_LIVE.fetch_add(1, Relaxed);
                    EF_ALLOCS.fetch_add(1, Relaxed);
                    core::ptr::write_bytes(p, 0xA5, l.size());
                    return p;
                }
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !EF_BASE.is_null() {
            let end = EF_BASE.add(SLOTS * (SLOT_CAP + PAGE) + PAGE);
            if p >= EF_BASE && p < end {
                for i in 0..SLOTS {
                    if let Some((q, s, a)) = EF_USED[i] {
                        if q == p as usize {
                            if s != l.size() || a != l.align() {
                                IN_CALL.store(false, Relaxed);
                                violation("frees a block with a size or alignment other than it was allocated with");
                            }
                            EF_USED[i] = None;
                            EF_LIVE.fetch_sub(1, Relaxed);
                            return;
                        }
                    }
                }
                IN_CALL.store(false, Relaxed);
                violation("frees memory that is not a live allocation");
            }
        }
        System.dealloc(p, l)
    }
}

/// A remark for the report of a violation.
pub fn set_note(s: &'static str) {
    unsafe { CASE.note = s };
}

// ---------------------------------------------------------------- address sanitizer
/// Builds with AddressSanitizer: the surroundings of the buffers of a call are poisoned, every instrumented
/// load and store of the code under test is checked against that.
#[cfg(vsimd_asan)]
pub mod asan {
    use super::*;
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
        fn __asan_set_error_report_callback(f: extern "C" fn(*const libc::c_char));
    }
    extern "C" fn report(m: *const libc::c_char) {
        IN_CALL.store(false, Relaxed);
        EF_ON.store(false, Relaxed);
        let m = unsafe { std::ffi::CStr::from_ptr(m) }.to_string_lossy().into_owned();
        let mut what = String::from("AddressSanitizer: ");
        for l in m.lines() {
            let l = l.trim();
            if l.contains("ERROR: AddressSanitizer") || l.starts_with("READ of") || l.starts_with("WRITE of") || l.starts_with("#0") || l.starts_with("#1 ") {
                what.push_str(l);
                what.push_str(" | ");
            }
        }
        violation(&what);
    }
    pub fn install() {
        unsafe {
            __asan_set_error_report_callback(report);
            // positive control: a load one byte beyond a fence must be reported
            let pid = libc::fork();
            if pid == 0 {
                let null = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                let v = vec![0u8; 4096];
                let p = v.as_ptr().add(1000);
                fence(v.as_ptr(), v.as_ptr().add(4096), p, 27, true);
                let x = std::hint::black_box(p).add(27 + std::hint::black_box(0)).read_volatile();
                libc::_exit(64 + (x & 1) as i32);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 1 {
                eprintln!("AddressSanitizer is not active (status {st})");
                libc::_exit(72);
            }
        }
    }
    const R: usize = 1024;
    /// Everything around `len` bytes at `p`. The bytes before are exact if `p` is a multiple of eight.
    pub unsafe fn fence(lo: *const u8, hi: *const u8, p: *const u8, len: usize, on: bool) {
        let a = (p as usize - R).max(lo as usize);
        let e = p as usize + len;
        let b = (e + R).min(hi as usize);
        if on {
            __asan_poison_memory_region(a as *const u8, (p as usize & !7) - a);
            __asan_poison_memory_region(e as *const u8, b - e);
        } else {
            __asan_unpoison_memory_region(a as *const u8, b - a);
        }
    }
}
