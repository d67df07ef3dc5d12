#![allow(static_mut_refs, function_casts_as_integer, dead_code, clippy::all)]
//! Bounded exhaustive exploration of the simd crates against reference models.
#[cfg(not(target_arch = "wasm32"))]
mod calls;
mod cfg;
mod codec;
mod env;
mod explore;
mod forg;
#[cfg(target_arch = "x86_64")]
mod giant;
#[cfg(not(target_arch = "wasm32"))]
mod hist;
mod host;
mod lens;
mod mem;
mod ops;
mod refm;
#[cfg(target_arch = "x86_64")]
mod sched;
#[cfg(target_arch = "x86_64")]
mod trace;
#[cfg(not(target_arch = "x86_64"))]
mod sched {
    pub fn freeze() {}
}
mod uni;
#[path = "uuid.rs"]
mod uuidp;

#[global_allocator]
static GLOBAL: env::Ef = env::Ef;

use explore::X;

fn set_isa(name: &str) {
    let level: u8 = match name {
        "fallback" => 0,
        "sse2" => 1,
        "ssse3" => 2,
        "sse41" => 3,
        "avx2" => 4,
        "native" | "simd128" => 255,
        _ => {
            eprintln!("unknown isa {name}");
            std::process::exit(64)
        }
    };
    #[cfg(vsimd_mc)]
    vsimd::isa::mc::CAP.store(level, std::sync::atomic::Ordering::SeqCst);
    #[cfg(not(vsimd_mc))]
    if level != 255 {
        eprintln!("this build has no instruction-set cap");
        std::process::exit(64)
    }
    unsafe { env::ISA_NAME = Box::leak(name.to_string().into_boxed_str()) };
}

fn main() {
    let args: Vec<String> = env::args();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    let cmd = args.get(1).cloned().unwrap_or_default();
    let prop = args.get(2).cloned().unwrap_or_default();
    let part = get("--part", "");
    let thorough = get("--tier", "quick") == "thorough";
    let shard = get("--shard", "0/1");
    let (a, b) = shard.split_once('/').unwrap();
    let (shard, nshards): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
    set_isa(&get("--isa", "native"));
    unsafe { env::CFG_NAME = Box::leak(get("--cfg", "det").into_boxed_str()) };
    env::ef_init();
    env::install_handlers();
    #[cfg(vsimd_asan)]
    env::asan::install();
    let cap: usize = get("--cap", "41943040").parse().unwrap();
    let mut x = X::new(cap, shard, nshards, thorough);
    let seen = get("--seen", "");
    #[cfg(target_arch = "wasm32")]
    let _ = seen;
    #[cfg(not(target_arch = "wasm32"))]
    if let Some((fd, len)) = seen.split_once(':') {
        let len: usize = len.parse().unwrap();
        unsafe {
            let p = libc::mmap(core::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd.parse().unwrap(), 0);
            assert!(p != libc::MAP_FAILED);
            x.seen = p.cast();
            x.seen_mask = len as u64 * 8 - 1;
        }
        for b in format!("{} {}", get("--isa", "native"), get("--cfg", "det")).bytes() {
            x.salt = (x.salt ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(7);
        }
    }
    match cmd.as_str() {
        "run" => {
            match prop.as_str() {
                #[cfg(target_arch = "x86_64")]
                p if part == "giant" => giant::parts(&mut x, p),
                p if part == "steady" => mem::steady(&mut x, p),
                p if part == "adjacent" => mem::adjacent(&mut x, p),
                p if part == "alignlong" => mem::align_long(&mut x, p),
                "C01" => codec::enc_parts(codec::C64, &mut x, &part),
                "C02" => codec::dec_parts(codec::C64, &mut x, &part),
                "C03" => forg::parts(&mut x, &part),
                "C08" => uuidp::parse_parts(&mut x, &part),
                "C09" => uuidp::fmt_parts(&mut x, &part),
                "C10" => uni::ascii_parts(&mut x, &part),
                "C11" => uni::utf32_parts(&mut x, &part),
                "C12" => uni::swap_parts(&mut x, &part),
                "C13" => mem::mem_parts(&mut x, &part),
                "C14" => mem::agree_parts(&mut x, &part),
                #[cfg(all(feature = "alloc", not(target_arch = "wasm32")))]
                "C15" => match part.as_str() {
                    "vec" => hist::append::explore(&mut x, false, shard % 2),
                    "vecgrid" | "strgrid" => (0..2).for_each(|mode| hist::append::grid(&mut x, part == "strgrid", mode)),
                    _ => hist::append::explore(&mut x, true, shard % 2),
                },
                "C16" => cfg::parts(&mut x, &part),
                #[cfg(target_arch = "x86_64")]
                "C17" => sched::parts(&mut x, &part, get("--budget", "60").parse().unwrap()),
                "C20" => lens::parts(&mut x, &part),
                #[cfg(not(target_arch = "wasm32"))]
                "C21" => hist::history_parts(&mut x, &part),
                "C04" => codec::enc_parts(codec::C32, &mut x, &part),
                "C05" => codec::dec_parts(codec::C32, &mut x, &part),
                "C06" => codec::enc_parts(codec::CHex, &mut x, &part),
                "C07" => codec::dec_parts(codec::CHex, &mut x, &part),
                _ => env::exit(64),
            }
            x.report();
        }
        _ => env::exit(64),
    }
}
