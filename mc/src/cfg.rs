//! C16: the same results on every instruction set and in every build, with nothing but the allowed instructions.
use crate::env::Place::*;
use crate::explore::{Fill, X};
use crate::mem::contents;
use crate::ops::*;
#[cfg(target_arch = "x86_64")]
use crate::trace;
use std::sync::atomic::Ordering::Relaxed;

fn grid(x: &mut X, lens: &[usize], rich: bool, variants: bool) {
    for op in Op::all() {
        // one alphabet variant is enough where the code path does not depend on it
        if !variants && matches!(op, Op::B64(3, _) | Op::B32(2, _)) {
            continue;
        }
        for &n in lens {
            if (op.fixed16() && n != 16) || n % op.unit() != 0 {
                continue;
            }
            if !x.trace && (op.code() as usize * 7 + n) % x.nshards != x.shard {
                continue;
            }
            for s in contents(op, n, rich) {
                x.put(End, &s);
                x.run(op, End, n, End, n * 2 + 16);
            }
        }
    }
}

pub fn parts(x: &mut X, part: &str) {
    let t = x.thorough;
    match part {
        "grid" => {
            x.digest = Some(Default::default());
            let max = if t { 700 } else { 260 };
            let lens: Vec<usize> = (0..=max).collect();
            x.fill = Fill::Zero;
            grid(x, &lens, true, true);
            x.sample(format!("every entry point x input length 0..={max} x valid/invalid contents, judged by the reference model; result digests compared between all builds and instruction sets"));
        }
        #[cfg(target_arch = "x86_64")]
        // a virtual CPU per shard: detection is run against it, every instruction is checked against it
        "cpu" => {
            let k = x.shard % trace::CPUS.len();
            trace::install(k, None);
            trace::self_test();
            x.trace = true;
            monitored(x, t);
            let name = trace::CPUS[k].name;
            if trace::CPUIDS.load(Relaxed) == 0 && cfg!(feature = "detect") {
                eprintln!("no CPUID was executed: the virtual CPU was not seen");
                std::process::exit(70);
            }
            x.sample(format!("virtual CPU: {name}"));
            x.group("CPUID instructions emulated", trace::CPUIDS.load(Relaxed));
        }
        #[cfg(target_arch = "x86_64")]
        // the level of this build, or the cap, is what may be executed
        p if p.starts_with("step") => {
            let allowed = match &p[4..] {
                "0" => 0,
                "2" => trace::SSE3 | trace::SSSE3,
                "3" => trace::SSE3 | trace::SSSE3 | trace::SSE41,
                _ => trace::SSE3 | trace::SSSE3 | trace::SSE41 | trace::SSE42 | trace::AVX | trace::AVX2,
            };
            trace::install(trace::CPUS.len() - 1, Some(allowed));
            trace::self_test();
            x.trace = true;
            monitored(x, t);
        }
        _ => panic!("unknown part {part}"),
    }
}

#[cfg(target_arch = "x86_64")]
fn monitored(x: &mut X, t: bool) {
    let lens: Vec<usize> = if t { (0..=200).collect() } else { vec![0, 2, 5, 12, 16, 20, 32, 36, 40, 45, 64, 72, 100, 136] };
    grid(x, &lens, false, t);
    // long inputs: the first contents of every entry point; beyond 2 KiB those that do not allocate
    let long: &[usize] = if t { &[256, 320, 520, 768, 1032, 1600, 2056, 3200, 4104, 8200, 16400, 33000, 66000, 132_000, 263_000] } else { &[264, 520, 1032, 2056, 4104, 16400, 66000] };
    for op in Op::all() {
        if op.fixed16() || op.name().contains("uuid") || matches!(op, Op::B64(_, EncLen | EstLen) | Op::B32(_, EncLen | EstLen)) {
            continue;
        }
        let first = !matches!(op, Op::B64(1..=3, _) | Op::B32(1..=3, _) | Op::Hex(1, _) | Op::HexRawEnc(1)) && !op.in_place();
        for (k, &n) in long.iter().enumerate() {
            if op.is_heap() && (n > 2100 || (!t && k != op.code() as usize % 4)) || (!t && (!first && n > 2100 || n > 4200 && k % 2 != op.code() as usize % 2)) {
                continue;
            }
            let s = contents(op, n, false).swap_remove(0);
            x.put(End, &s);
            x.run(op, End, n, End, n * 2 + 16);
        }
    }
    native(x);
    let c = unsafe { trace::CLASS };
    x.group("instructions single-stepped", trace::STEPS.load(Relaxed));
    for (i, n) in ["SSE3", "SSSE3", "SSE4.1", "SSE4.2/POPCNT", "AVX", "AVX2/BMI", "AVX-512", "other", "baseline"].iter().enumerate() {
        x.group(&format!("instructions needing {n}"), c[i]);
    }
    x.sample("every entry point single-stepped; every executed instruction classified".into());
}

#[cfg(target_arch = "x86_64")]
/// `Native::detect().exec(f)`: f is compiled for the detected features, and runs exactly once.
fn native(x: &mut X) {
    use crate::env;
    for n in [0usize, 1, 7, 16, 33, 100, 257] {
        let b = x.src_buf(End, n);
        crate::codec::fill_pat(b, 2);
        let v: &[u8] = unsafe { core::slice::from_raw_parts(x.src.view.add(x.src.cap - n), n) };
        let mut want = (0u64, 0u8, 0u32);
        for &q in b.iter() {
            want.0 = want.0.wrapping_add(q as u64 * q as u64);
            want.1 = want.1.max(q);
            want.2 += q.count_ones();
        }
        let mut runs = 0u32;
        #[allow(static_mut_refs)]
        unsafe {
            env::CASE.op = Op::IsAscii;
            env::CASE.src = v.as_ptr();
            env::CASE.src_len = n;
            env::CASE.dst_len = 0;
        }
        env::set_note("vsimd::native::Native::detect().exec(sum of squares, maximum, bits)");
        env::PROGRESS.fetch_add(1, Relaxed);
        env::IN_CALL.store(true, Relaxed);
        unsafe { trace::start() };
        let got = vsimd::native::Native::detect().exec(|| {
            runs += 1;
            let mut r = (0u64, 0u8, 0u32);
            for &q in v {
                r.0 = r.0.wrapping_add(q as u64 * q as u64);
                r.1 = r.1.max(q);
                r.2 += q.count_ones();
            }
            r
        });
        unsafe { trace::stop() };
        env::IN_CALL.store(false, Relaxed);
        if got != want || runs != 1 {
            env::violation(&format!("the closure ran {runs} times and returned {got:?} instead of {want:?}"));
        }
        env::set_note("");
        x.cases += 1;
        x.calls += 1;
        x.ok += 1;
    }
}
