//! C17: a controlled scheduler for real threads.
//!
//! The threads are real Rust threads (own stack, own thread-local storage), created once and parked. A scenario runs
//! in a forked process in which one kernel thread executes all of them by switching stack and TLS base, so that the
//! order of their steps is decided here and the whole process can be copied (fork) at every decision: each
//! alternative is explored in a copy, the default in the original.
//!
//! Two notions of step:
//!  * `Data`: the writable data of the executable (every static of the library, of std and of the harness) is made
//!    inaccessible; each access faults, is a scheduling point, and is then executed as one step. Nothing else is
//!    shared between the threads (heap blocks and stacks are private unless published through a static).
//!  * `Every`: each machine instruction of the executable is a scheduling point (single-stepping).
use crate::calls::*;
use crate::env;
use crate::explore::X;
use crate::ops::*;
use core::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

const BASE: usize = 0x6100_0000_0000;
const SHARED: usize = 0x6200_0000_0000;
pub const MAXT: usize = 3;

core::arch::global_asm!(
    ".globl mc_switch",
    "mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl mc_park",
    "mc_park:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "and rsp, -16",
    "call rsi",
    "ud2",
);
extern "C" {
    fn mc_switch(save: *mut usize, load: usize);
    fn mc_park(save: *mut usize, f: extern "C" fn());
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Data,
    Every,
}

#[repr(C)]
struct Th {
    rsp: usize,
    fs: usize,
    done: bool,
    /// futex address this thread waits on
    blocked: usize,
    timed: bool,
    woken: bool,
    spin_addr: usize,
    spin: usize,
    /// last addresses of the sweeps through static memory that this thread is in (coarse steps)
    sweep: [usize; 4],
    nsweep: usize,
    calls: *const Call,
    ncalls: usize,
    src: *mut u8,
    dst: *mut u8,
    stride: usize,
    results: *mut Option<R>,
    at: usize,
}
#[repr(C)]
struct Sched {
    mode: Mode,
    /// going on through a static array is part of the step that began it
    coarse: bool,
    active: bool,
    th: [Th; MAXT],
    n: usize,
    cur: usize,
    left: usize,
    bound: usize,
    lo: usize,
    hi: usize,
    text: (usize, usize),
    ignore: [usize; 16],
    steps: u64,
    log: [(u64, u8, u8, usize); 64],
    nlog: usize,
    root_fs: usize,
    root_rsp: usize,
    panics: bool,
    progress: u64,
}
#[repr(C)]
pub struct Counters {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub here: AtomicU64,
    pub truncated: AtomicU64,
    pub blocked: AtomicU64,
    pub maxsteps: AtomicU64,
    pub deadline: AtomicU64,
    /// most preemptions used by a schedule
    pub deepest: AtomicU64,
}
static MAPPED: AtomicBool = AtomicBool::new(false);
static READY: AtomicUsize = AtomicUsize::new(0);

fn s() -> &'static mut Sched {
    unsafe { &mut *(BASE as *mut Sched) }
}
pub fn counters() -> &'static Counters {
    unsafe { &*(SHARED as *const Counters) }
}

#[inline(always)]
unsafe fn sys(n: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn protect() {
    let m = s();
    if m.active && m.mode == Mode::Data {
        sys(10, m.lo, m.hi - m.lo, 0, 0);
    }
}
unsafe fn unprotect() {
    let m = s();
    if m.lo != 0 {
        sys(10, m.lo, m.hi - m.lo, 3, 0);
    }
}
unsafe fn set_fs(v: usize) {
    sys(158, 0x1002, v, 0, 0);
}
unsafe fn get_fs() -> usize {
    let mut v = 0usize;
    sys(158, 0x1003, &mut v as *mut usize as usize, 0, 0);
    v
}

/// Ends control (a violation is being reported).
pub fn freeze() {
    unsafe {
        if MAPPED.load(Relaxed) {
            let m = s();
            if m.active {
                m.active = false;
                unprotect();
            }
        }
    }
}
/// Description of the schedule so far.
pub fn describe() -> String {
    if !MAPPED.load(Relaxed) || s().n == 0 {
        return String::new();
    }
    let m = s();
    let mut o = format!(" [schedule of {} threads, {:?} steps:", m.n, m.mode);
    for i in 0..m.nlog.min(64) {
        let (st, a, b, ip) = m.log[i];
        o += &format!(" step {st}: T{a}->T{b} at +{:#x};", ip.wrapping_sub(m.text.0));
    }
    for t in 0..m.n {
        let th = &m.th[t];
        o += &format!(" T{t}:");
        for i in 0..th.ncalls {
            o += &format!(" {}", unsafe { &(*th.calls.add(i)).name });
        }
        o += ";";
    }
    o + "]"
}

unsafe fn enabled(t: usize) -> bool {
    let th = &s().th[t];
    !th.done && th.blocked == 0
}

/// Gives control to thread `t`; returns when the caller is scheduled again.
unsafe fn switch_to(t: usize, ip: usize) {
    let m = s();
    let me = m.cur;
    if t == me {
        return;
    }
    if m.nlog < 64 {
        m.log[m.nlog] = (m.steps, me as u8, t as u8, ip);
    }
    m.nlog += 1;
    m.cur = t;
    m.th[me].spin = 0;
    m.th[t].spin = 0;
    set_fs(m.th[t].fs);
    mc_switch(&mut m.th[me].rsp, m.th[t].rsp);
}

unsafe fn wait_child(pid: isize) {
    let mut st = 0i32;
    loop {
        let r = sys(61, pid as usize, &mut st as *mut i32 as usize, 0, 0);
        if r == pid {
            break;
        }
        if r != -4 {
            env::EXPECT_PANIC.store(false, Relaxed);
            libc::_exit(73);
        }
    }
    if st != 0 {
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 72 };
        libc::_exit(code);
    }
}
unsafe fn fork() -> isize {
    let r = sys(57, 0, 0, 0, 0);
    if r < 0 {
        libc::_exit(74);
    }
    r
}

fn now() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
fn over() -> bool {
    let c = counters();
    if now() > c.deadline.load(Relaxed) {
        c.truncated.store(1, Relaxed);
        return true;
    }
    false
}

/// A scheduling point of the running thread: explores every preemption still allowed.
unsafe fn point(ip: usize) {
    let m = s();
    m.steps += 1;
    let c = counters();
    c.transitions.fetch_add(1, Relaxed);
    if m.steps > 3_000_000 {
        freeze();
        env::violation("the threads do not finish: 3000000 steps were taken");
    }
    if m.left == 0 {
        return;
    }
    c.states.fetch_add(1, Relaxed);
    for t in 0..m.n {
        if t == m.cur || !enabled(t) {
            continue;
        }
        if over() {
            return;
        }
        let pid = fork();
        if pid == 0 {
            m.left -= 1;
            switch_to(t, ip);
            return;
        }
        wait_child(pid);
    }
}

/// The running thread cannot or need not go on: tries every other enabled thread, at no cost.
/// Returns false if there is none.
unsafe fn give_way(ip: usize) -> bool {
    let m = s();
    let mut alt = [0usize; MAXT];
    let mut n = 0;
    for k in 1..m.n {
        let t = (m.cur + k) % m.n;
        if enabled(t) {
            alt[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        return false;
    }
    counters().states.fetch_add(1, Relaxed);
    for &t in &alt[1..n] {
        if over() {
            break;
        }
        let pid = fork();
        if pid == 0 {
            switch_to(t, ip);
            return true;
        }
        wait_child(pid);
    }
    switch_to(alt[0], ip);
    true
}

/// End of the running thread's calls. Does not return.
unsafe fn finish() -> ! {
    let m = s();
    m.th[m.cur].done = true;
    if give_way(0) {
        unreachable!();
    }
    for t in 0..m.n {
        if !m.th[t].done {
            freeze();
            env::violation(&format!("deadlock: thread {t} waits for ever{}", describe()));
        }
    }
    // complete execution: judge it
    m.active = false;
    env::IN_CALL.store(false, Relaxed);
    let c = counters();
    c.traces.fetch_add(1, Relaxed);
    c.here.fetch_add(1, Relaxed);
    c.maxsteps.fetch_max(m.steps, Relaxed);
    c.deepest.fetch_max((m.bound - m.left) as u64, Relaxed);
    for t in 0..m.n {
        let th = &m.th[t];
        for i in 0..th.ncalls {
            let call = &*th.calls.add(i);
            let r = (*th.results.add(i)).as_ref();
            let ok = match r {
                Some(r) => call.right(r, th.src.add(i * th.stride)),
                None => call.want == Out::Panicked,
            };
            if !ok {
                let got = match (*th.results.add(i)).take() {
                    Some(r) => call.outcome(r, th.src.add(i * th.stride)).show(),
                    None => "a panic".into(),
                };
                set_case(call);
                env::violation(&format!("call {i} of thread {t} ({}): expected {}, got {got}{}", call.name, call.want.show(), describe()));
            }
        }
    }
    libc::_exit(0)
}
#[allow(static_mut_refs)]
unsafe fn set_case(c: &Call) {
    env::CASE.op = c.op();
    env::CASE.src = c.input.as_ptr();
    env::CASE.src_len = c.input.len();
    env::CASE.dst_len = c.dst_len();
    env::CASE.note = "schedule";
}

extern "C" fn parked() {
    READY.fetch_add(1, SeqCst);
    loop {
        unsafe { libc::pause() };
    }
}

fn worker(i: usize) {
    unsafe {
        s().th[i].fs = get_fs();
        mc_park(&mut s().th[i].rsp, parked);
        // from here on: in a forked process, under control
        let th = &mut s().th[i];
        let panics = s().panics;
        for k in 0..th.ncalls {
            let call = &*th.calls.add(k);
            let (a, d) = (th.src.add(k * th.stride), th.dst.add(k * th.stride));
            th.at = k;
            let r = if panics {
                std::panic::catch_unwind(|| {
                    begin();
                    let r = call.raw(a, d);
                    end();
                    r
                })
                .ok()
            } else {
                begin();
                let r = call.raw(a, d);
                end();
                Some(r)
            };
            end();
            th.results.add(k).write(r);
        }
        finish();
    }
}

#[inline(always)]
unsafe fn begin() {
    match s().mode {
        Mode::Data => protect(),
        Mode::Every => {
            if s().left > 0 {
                core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop")
            }
        }
    }
}
#[inline(always)]
unsafe fn end() {
    match s().mode {
        Mode::Data => unprotect(),
        Mode::Every => core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq"),
    }
}

/// Does the access go on with a sweep upwards through memory that the thread began earlier?
unsafe fn swept(th: &mut Th, a: usize) -> bool {
    for w in th.sweep.iter_mut() {
        if *w != 0 && a > *w && a - *w <= 64 {
            *w = a;
            return true;
        }
    }
    th.sweep[th.nsweep % 4] = a;
    th.nsweep += 1;
    false
}

const TF: i64 = 0x100;
extern "C" fn on_segv(_sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let m = s();
        let a = (*info).si_addr() as usize;
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let ip = g[libc::REG_RIP as usize] as usize;
        if m.active && m.mode == Mode::Data && a >= m.lo && a < m.hi {
            unprotect();
            if !m.ignore.contains(&a) {
                let th = &mut m.th[m.cur];
                if th.spin_addr == a {
                    th.spin += 1;
                } else {
                    th.spin_addr = a;
                    th.spin = 0;
                }
                if th.spin > 400 {
                    // busy waiting
                    th.spin = 0;
                    give_way(ip);
                } else if m.coarse && swept(th, a) {
                    m.steps += 1;
                } else {
                    point(ip);
                }
            }
            g[libc::REG_EFL as usize] |= TF;
            return;
        }
        freeze();
        env::IN_CALL.store(false, Relaxed);
        env::violation(&format!("SIGSEGV at address {a:#x}, instruction +{:#x}{}", ip.wrapping_sub(m.text.0), describe()));
    }
}
extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let m = s();
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        match m.mode {
            Mode::Data => {
                g[libc::REG_EFL as usize] &= !TF;
                protect();
            }
            Mode::Every => {
                let ip = g[libc::REG_RIP as usize] as usize;
                if m.active && ip >= m.text.0 && ip < m.text.1 {
                    point(ip);
                }
                if m.left == 0 || !m.active {
                    g[libc::REG_EFL as usize] &= !TF;
                }
            }
        }
    }
}
extern "C" fn on_sys(_sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let m = s();
        unprotect();
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let ip = g[libc::REG_RIP as usize] as usize;
        let nr = g[libc::REG_RAX as usize];
        let _ = info;
        let (a0, a1, a2, a3) = (g[libc::REG_RDI as usize] as usize, g[libc::REG_RSI as usize] as usize, g[libc::REG_RDX as usize] as usize, g[libc::REG_R10 as usize] as usize);
        let mut ret: i64 = 0;
        if m.active {
            m.steps += 1;
            match nr {
                202 => match a1 & 0x7f {
                    0 | 9 => {
                        if (a0 as *const u32).read_volatile() != a2 as u32 {
                            ret = -11;
                        } else {
                            counters().blocked.fetch_add(1, Relaxed);
                            let me = m.cur;
                            m.th[me].blocked = a0;
                            m.th[me].timed = a3 != 0;
                            m.th[me].woken = false;
                            if !give_way(ip) {
                                if a3 != 0 {
                                    m.th[me].blocked = 0;
                                    ret = -110;
                                } else {
                                    freeze();
                                    env::IN_CALL.store(false, Relaxed);
                                    env::violation(&format!("deadlock: every thread waits{}", describe()));
                                }
                            }
                        }
                    }
                    1 | 10 => {
                        let mut k = 0;
                        for t in 0..m.n {
                            if k < a2 && m.th[t].blocked == a0 {
                                m.th[t].blocked = 0;
                                k += 1;
                            }
                        }
                        ret = k as i64;
                    }
                    _ => ret = -38,
                },
                _ => {
                    // sched_yield, nanosleep: let the others run
                    give_way(ip);
                    if m.steps > 3_000_000 {
                        freeze();
                        env::violation("the threads do not finish: 3000000 steps were taken");
                    }
                }
            }
        }
        g[libc::REG_RAX as usize] = ret;
        if m.active && m.mode == Mode::Data {
            protect();
        }
    }
}
extern "C" fn on_cpu(_sig: i32, _info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    unsafe {
        // a process that makes progress gets another 15 s
        let m = s();
        let p = m.steps + counters().states.load(Relaxed) + counters().here.load(Relaxed);
        if p != m.progress {
            m.progress = p;
            let mut rl: libc::rlimit = core::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_CPU, &mut rl);
            rl.rlim_cur += 15;
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            return;
        }
    }
    freeze();
    env::IN_CALL.store(false, Relaxed);
    env::violation(&format!("a call does not return (processor time limit){}", describe()));
}

unsafe fn install() {
    for (sig, h) in [(libc::SIGSEGV, on_segv as usize), (libc::SIGTRAP, on_trap as usize), (libc::SIGSYS, on_sys as usize), (libc::SIGXCPU, on_cpu as usize)] {
        let mut a: libc::sigaction = core::mem::zeroed();
        a.sa_sigaction = h;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(sig, &a, core::ptr::null_mut());
    }
    let rl = libc::rlimit { rlim_cur: 15, rlim_max: libc::RLIM_INFINITY };
    libc::setrlimit(libc::RLIMIT_CPU, &rl);
    // blocking system calls go through the scheduler
    let st = |code: u16, k: u32| libc::sock_filter { code, jt: 0, jf: 0, k };
    let jeq = |k: u32, jt: u8| libc::sock_filter { code: 0x15, jt, jf: 0, k };
    let mut f = [
        st(0x20, 0),
        jeq(202, 5), // futex
        jeq(24, 4),  // sched_yield
        jeq(35, 3),  // nanosleep
        jeq(230, 2), // clock_nanosleep
        st(0x06, 0x7fff_0000),
        st(0x06, 0x7fff_0000),
        st(0x06, 0x0003_0000),
    ];
    // jumps are relative to the next instruction; all lead to the last one
    f[1].jt = 5;
    f[2].jt = 4;
    f[3].jt = 3;
    f[4].jt = 2;
    let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    if libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const _ as usize, 0, 0) != 0 {
        eprintln!("cannot install the system call filter");
        libc::_exit(75);
    }
}

fn data_range() -> (usize, usize) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_str().unwrap();
    let (mut lo, mut hi) = (0, 0);
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let mut f = l.split_whitespace();
        let (r, p) = (f.next().unwrap(), f.next().unwrap());
        let (a, b) = r.split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let named = l.split_whitespace().nth(5).is_some();
        if l.ends_with(exe) && p.starts_with("rw") {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        } else if lo != 0 && a == hi && !named && p.starts_with("rw") {
            hi = b;
        }
    }
    assert!(lo < hi);
    (lo, hi)
}

/// Creates the threads; they park and never run again in this process.
pub fn setup() {
    unsafe {
        for (at, len, flags) in [(BASE, 1 << 16, libc::MAP_PRIVATE), (SHARED, 4096, libc::MAP_SHARED)] {
            let p = libc::mmap(at as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, flags | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
            assert!(p as usize == at);
        }
        MAPPED.store(true, SeqCst);
        for i in 0..MAXT {
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(i)).unwrap();
        }
        while READY.load(SeqCst) < MAXT {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
        let m = s();
        (m.lo, m.hi) = data_range();
        m.text = crate::trace::text_range();
        let ign = [
            &env::EF_ON as *const _ as usize,
            &raw const env::EF_BASE as usize,
            &env::IN_CALL as *const _ as usize,
            &env::EXPECT_PANIC as *const _ as usize,
            &MAPPED as *const _ as usize,
            #[cfg(vsimd_mc)]
            {
                &vsimd::isa::mc::CAP as *const _ as usize
            },
        ];
        m.ignore[..ign.len()].copy_from_slice(&ign);
    }
}

/// Explores all schedules of the scenario with at most `bound` preemptions.
pub fn scenario(threads: &[Vec<Call>], warm: &[Call], mode: Mode, coarse: bool, bound: usize) {
    unsafe {
        counters().here.store(0, SeqCst);
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        let pid = fork();
        if pid != 0 {
            wait_child(pid);
            return;
        }
        let m = s();
        m.mode = mode;
        m.coarse = coarse;
        m.n = threads.len();
        m.bound = bound;
        m.left = bound;
        m.steps = 0;
        m.nlog = 0;
        m.panics = threads.iter().flatten().any(|c| c.panics());
        env::EXPECT_PANIC.store(m.panics, SeqCst);
        for c in warm {
            let mut a = c.input.clone();
            a.reserve(64);
            let mut d = vec![0u8; c.dst_len() + 64];
            c.prepare(d.as_mut_ptr());
            let r = c.raw(aligned(&a), d.as_mut_ptr());
            drop(r);
        }
        for (i, calls) in threads.iter().enumerate() {
            let stride = calls.iter().map(|c| c.input.len().max(c.dst_len())).max().unwrap_or(0) / 64 * 64 + 128;
            let mem = std::alloc::alloc(std::alloc::Layout::from_size_align(stride * 2 * calls.len() + 64, 64).unwrap());
            let dst = mem.add(stride * calls.len());
            for (k, c) in calls.iter().enumerate() {
                core::ptr::copy_nonoverlapping(c.input.as_ptr(), mem.add(k * stride), c.input.len());
                c.prepare(dst.add(k * stride));
            }
            let res: &'static mut [Option<R>] = Box::leak((0..calls.len()).map(|_| None).collect::<Vec<_>>().into_boxed_slice());
            let th = &mut m.th[i];
            th.done = false;
            th.blocked = 0;
            th.spin = 0;
            th.sweep = [0; 4];
            th.nsweep = 0;
            th.calls = calls.as_ptr();
            th.ncalls = calls.len();
            th.src = mem;
            th.dst = dst;
            th.stride = stride;
            th.results = res.as_mut_ptr();
        }
        set_case(&threads[0][0]);
        install();
        env::IN_CALL.store(true, SeqCst);
        m.active = true;
        // which thread starts is free
        for t in 1..m.n {
            let pid = fork();
            if pid == 0 {
                start(t);
            }
            wait_child(pid);
        }
        start(0);
    }
}
unsafe fn start(t: usize) -> ! {
    let m = s();
    m.cur = t;
    set_fs(m.th[t].fs);
    let mut dummy = 0usize;
    mc_switch(&mut dummy, m.th[t].rsp);
    unreachable!()
}
fn aligned(v: &[u8]) -> *const u8 {
    v.as_ptr()
}

// ---------------------------------------------------------------------------------------------- scenarios

/// One operation per dispatched function (and a few that share one), with an input that reaches the vector code.
fn entry_calls() -> Vec<Call> {
    let mut ops = vec![
        Op::B64(0, Enc),
        Op::B64(1, Dec),
        Op::B64(0, DecIn),
        Op::B64(2, Check),
        Op::Forg,
        Op::ForgIn,
        Op::B32(0, Enc),
        Op::B32(1, Dec),
        Op::B32(0, Check),
        Op::B32(2, DecIn),
        Op::Hex(0, Enc),
        Op::Hex(0, Dec),
        Op::Hex(0, DecIn),
        Op::Hex(0, Check),
        Op::UuidParse,
        Op::UuidParseSimple,
        Op::UuidParseHyph,
        Op::UuidFmtSimple(0),
        Op::UuidFmtHyph(1),
        Op::IsAscii,
        Op::FromAscii,
        Op::IsUtf32,
        Op::Swap16,
        Op::Swap16In,
        Op::Swap32,
        Op::Swap32In,
    ];
    if cfg!(feature = "alloc") {
        ops.extend([Op::B64(0, EncString), Op::B64(0, DecVec), Op::B32(0, EncString), Op::Hex(1, EncString), Op::ForgVec, Op::B64(1, EncAppVec), Op::Hex(0, DecAppVec)]);
    }
    ops.iter()
        .map(|&op| {
            let n = if op.fixed16() {
                16
            } else {
                match op {
                    Op::UuidParseSimple => 32,
                    Op::UuidParse | Op::UuidParseHyph => 36,
                    _ => 72,
                }
            };
            make(op, crate::mem::contents(op, n, false).into_iter().next().unwrap(), n * 2 + 16)
        })
        .collect()
}
/// The same operation on other arguments (another variant or case, another outcome).
fn other(c: &Call) -> Call {
    let op = match c.op() {
        Op::B64(v, f) => Op::B64((v + 1) % 4, f),
        Op::B32(v, f) => Op::B32((v + 1) % 4, f),
        Op::Hex(v, f) if f.is_enc() => Op::Hex(1 - v, f),
        Op::UuidFmtSimple(v) => Op::UuidFmtSimple(1 - v),
        Op::UuidFmtHyph(v) => Op::UuidFmtHyph(1 - v),
        o => o,
    };
    let n = c.input.len();
    let cs = crate::mem::contents(op, n, true);
    let mut input = cs.last().unwrap().clone();
    // prefer different content with a different outcome
    for s in cs {
        let k = make(op, s.clone(), n * 2 + 16);
        if std::mem::discriminant(&k.want) != std::mem::discriminant(&c.want) {
            input = s;
            break;
        }
    }
    if input == c.input {
        for b in input.iter_mut() {
            *b = b.wrapping_mul(3).wrapping_add(1);
        }
    }
    make(op, input, n * 2 + 16)
}
fn varied(c: &Call) -> Call {
    // valid input of the other variant, other bytes
    let op = other(c).op();
    let n = c.input.len();
    let mut input = crate::mem::contents(op, n, false).into_iter().next().unwrap();
    if input == c.input {
        if matches!(op, Op::UuidParse | Op::UuidParseHyph | Op::UuidParseSimple) {
            for b in input.iter_mut() {
                if b.is_ascii_digit() {
                    *b = b'0' + (*b - b'0' + 3) % 10;
                }
            }
        } else if matches!(op, Op::IsAscii | Op::FromAscii) {
            input.reverse();
        } else {
            let k = input.len();
            if k > 8 {
                input[..8].rotate_left(3);
            }
        }
    }
    make(op, input, n * 2 + 16)
}

/// The same operation on the same kind of text: all but the last bytes turned round.
fn twin(c: &Call) -> Call {
    let n = c.input.len();
    let mut input = c.input.clone();
    for k in [4, 8, 20, 12, 3, 5] {
        if n > k + 12 && input == c.input {
            input[..n - 8].rotate_left(k);
        }
    }
    make(c.op(), input, n * 2 + 16)
}

struct Scn {
    threads: Vec<Vec<Call>>,
    warm: Vec<Call>,
    max: usize,
}

pub fn parts(x: &mut X, part: &str, budget: f64) {
    let t = x.thorough;
    setup();
    let e = entry_calls();
    let mut all: Vec<Scn> = vec![];
    let mut add = |threads: Vec<Vec<Call>>, warm: Vec<Call>, max: usize| all.push(Scn { threads, warm, max });
    let mode = if part == "every" { Mode::Every } else { Mode::Data };
    let full = unsafe { env::ISA_NAME } == "native";
    match part {
        // every machine instruction is a scheduling point, one preemption
        "every" => {
            for c in &e {
                add(vec![vec![c.clone()], vec![varied(c)]], vec![], 1);
                add(vec![vec![c.clone()], vec![other(c)]], vec![c.clone()], 1);
                if t || full {
                    add(vec![vec![c.clone()], vec![c.clone()]], vec![], 1);
                    add(vec![vec![c.clone()], vec![other(c)]], vec![], 1);
                }
            }
            if t {
                for c in &e {
                    for d in e.iter() {
                        add(vec![vec![c.clone()], vec![d.clone()]], vec![], 1);
                        add(vec![vec![c.clone()], vec![d.clone()]], vec![c.clone(), d.clone()], 1);
                    }
                }
            }
            x.sample("two threads, first calls of the process or warm, every machine instruction a switch point, one preemption".into());
        }
        // accesses to static data are the scheduling points, several preemptions
        "data" => {
            for (i, c) in e.iter().enumerate() {
                add(vec![vec![c.clone()], vec![varied(c)]], vec![], if t || (full && i % 11 == 0) { 99 } else { 4 });
                add(vec![vec![c.clone()], vec![other(c)]], vec![], if t { 7 } else { 3 });
                add(vec![vec![c.clone()], vec![varied(c)]], vec![c.clone()], 99);
                add(vec![vec![c.clone(), other(c)], vec![varied(c), c.clone()]], vec![], if t { 6 } else { 2 });
            }
            x.sample("two threads, every access to static data a switch point, several preemptions".into());
        }
        // longer and shorter inputs: code for long inputs may share what code for short ones does not
        "sizes" => {
            let mut k = 0;
            for op in Op::all() {
                if op.fixed16() || op.name().contains("uuid") {
                    continue;
                }
                for n in [1usize, 7, 20, 33, 48, 150, 300, 600, 1100, 2100, 5000, 9000, 20000, 70000] {
                    k += 1;
                    if !t && (k % 2 == 0 || n > 1000) && op != Op::Forg {
                        // quick: every operation with about half of the shorter lengths, and one of the longer ones
                        if n <= 1000 || (k / 2) % 3 != 0 {
                            continue;
                        }
                    }
                    let n = n / op.unit() * op.unit();
                    let n = match op {
                        Op::B64(v, f) if !f.is_enc() && v < 2 => (n + 3) / 4 * 4,
                        Op::B32(v, f) if !f.is_enc() && v < 2 => (n + 7) / 8 * 8,
                        Op::Hex(_, f) if !f.is_enc() => (n + 1) / 2 * 2,
                        _ => n,
                    };
                    let Some(mut input) = crate::mem::contents(op, n, false).into_iter().next() else { continue };
                    if matches!(op, Op::Forg | Op::ForgIn | Op::ForgVec) && n % 2 == 0 {
                        // lines
                        for b in input.iter_mut().skip(4).step_by(5) {
                            *b = b'\n';
                        }
                        while input.iter().filter(|&&b| b != b'\n').count() % 4 == 1 {
                            input.push(b'A');
                        }
                    }
                    let c = make(op, input, n * 2 + 16);
                    if t || k % 5 == 0 {
                        add(vec![vec![c.clone()], vec![varied(&c)]], vec![], if t { 4 } else { 2 });
                    }
                    add(vec![vec![c.clone()], vec![other(&c)]], vec![c.clone()], if t { 99 } else { 3 });
                    add(vec![vec![c.clone()], vec![twin(&c)]], vec![c.clone()], if t { 99 } else { 3 });
                }
            }
            x.sample("two threads, inputs of 1 to 70000 bytes, every access to static data a switch point".into());
        }
        "mixed" => {
            for c in &e {
                for d in &e {
                    add(vec![vec![c.clone()], vec![d.clone()]], vec![], if t { 6 } else { 2 });
                }
            }
            x.sample("two threads making first calls of any two operations".into());
        }
        "three" => {
            for (i, c) in e.iter().enumerate() {
                let d = &e[(i + 5) % e.len()];
                add(vec![vec![c.clone()], vec![varied(c)], vec![other(c)]], vec![], if t { 4 } else { 2 });
                add(vec![vec![c.clone()], vec![varied(c)], vec![d.clone()]], vec![], if t { 4 } else { 2 });
                add(vec![vec![c.clone()], vec![varied(c)], vec![other(c)]], vec![c.clone()], if t { 99 } else { 4 });
            }
            x.sample("three threads, every access to static data a switch point".into());
        }
        "panics" => {
            for k in 0..3u8 {
                let p = Call { kind: Kind::LenPanic(k), input: vec![], dl: 0, want: Out::Panicked, name: format!("encoded_length panic {k}") };
                for c in e.iter().step_by(if t { 1 } else { 4 }) {
                    add(vec![vec![p.clone(), c.clone()], vec![c.clone()]], vec![], if t { 2 } else { 1 });
                    add(vec![vec![p.clone()], vec![p.clone()]], vec![], 1);
                }
            }
            x.sample("a thread whose call panics as documented next to a thread making the first call".into());
        }
        _ => panic!("unknown part {part}"),
    }
    let mine: Vec<Scn> = all.into_iter().filter(|_| x.mine()).collect();
    let c = counters();
    let r = |a: &AtomicU64| a.load(SeqCst);
    c.deadline.store(now() + (budget * 1e9) as u64, SeqCst);
    let mut complete = vec![0usize; mine.len()];
    let mut open = vec![true; mine.len()];
    if mode == Mode::Data {
        // going through a static array as one step, one preemption and then two
        for bound in 1..3 {
            for s in &mine {
                c.truncated.store(0, SeqCst);
                scenario(&s.threads, &s.warm, mode, true, bound.min(s.max));
                x.group(if r(&c.truncated) != 0 { "coarse scenarios cut short by the time budget" } else { "coarse scenarios explored" }, 1);
            }
        }
    }
    // all scenarios with few preemptions first
    for bound in 1..100 {
        for (i, s) in mine.iter().enumerate() {
            if !open[i] || bound > s.max {
                continue;
            }
            let deepest = r(&c.deepest);
            c.deepest.store(0, SeqCst);
            c.truncated.store(0, SeqCst);
            scenario(&s.threads, &s.warm, mode, false, bound);
            if r(&c.truncated) != 0 {
                open[i] = false;
                x.group("scenarios cut short by the time budget", 1);
                continue;
            }
            complete[i] = bound;
            x.cases += 1;
            x.calls += s.threads.iter().map(|v| v.len() as u64).sum::<u64>();
            if (r(&c.deepest) as usize) < bound {
                // no schedule has that many switches left: every interleaving was explored
                open[i] = false;
                x.group("scenarios explored without a preemption bound", 1);
            }
            c.deepest.fetch_max(deepest, SeqCst);
        }
    }
    for (i, _) in mine.iter().enumerate() {
        x.group(&format!("scenarios complete up to {} preemptions", complete[i]), 1);
    }
    x.group("states", r(&c.states));
    x.group("transitions", r(&c.transitions));
    x.group("traces", r(&c.traces));
    x.group("scenarios", mine.len() as u64);
    x.group("blocking waits", r(&c.blocked));
    x.group("distinct", r(&c.traces));
    x.ok += r(&c.traces);
}
