#!/usr/bin/env python3
"""Runs the check of one property: builds the explorer from /repo's working tree, explores, judges, writes evidence.

usage: check.py <property> [--tier quick|thorough] [--only PART]    (tier defaults to $VERIF_TIER)
       check.py setup                                               builds every configuration
       check.py replay <file>                                       repeats the job of a replay file
Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
NCPU = max(1, os.cpu_count() or 1)
OLD_NIGHTLY = "nightly-2025-06-20"
HOOK = "--cfg vsimd_mc"

# configuration: (crate, toolchain, RUSTFLAGS, features, profile)
CONFIGS = {
    "det": ("mc", None, HOOK, "std,detect", "release"),
    "dbg": ("mc", None, HOOK, "std,detect", "dbg"),
    "plain": ("mc", None, "", "std,detect", "release"),
    "nofeat": ("mc", None, HOOK, "", "release"),
    "alloc": ("mc", None, HOOK, "alloc", "release"),
    "static": ("mc", None, HOOK, "std", "release"),
    "st_ssse3": ("mc", None, HOOK + " -C target-feature=+sse3,+ssse3", "std", "release"),
    "st_sse41": ("mc", None, HOOK + " -C target-feature=+sse3,+ssse3,+sse4.1", "std", "release"),
    "st_avx2": ("mc", None, HOOK + " -C target-feature=+avx2", "std", "release"),
    "unstable": ("mc", OLD_NIGHTLY, HOOK, "std,detect,unstable", "release"),
    "asan": ("mc", "nightly", HOOK + " --cfg vsimd_asan -Zsanitizer=address", "std,detect", "release"),
    "i686": ("mc", "nightly", HOOK, "std,detect", "release"),
    "i686dbg": ("mc", "nightly", HOOK, "std,detect", "dbg"),
    "vec32": ("mcv", "nightly", HOOK, "", "release"),
    "neon": ("mc", "nightly", HOOK, "std,detect", "release"),
    "vecneon": ("mcv", "nightly", HOOK, "", "release"),
    "wasm": ("mc", "nightly", HOOK + " -C target-feature=+simd128", "std,detect", "release"),
    "wasm0": ("mc", "nightly", HOOK + " -C target-feature=-simd128", "std,detect", "release"),
    "vecwasm": ("mcv", "nightly", HOOK + " -C target-feature=+simd128", "", "release"),
    "par": ("mcp", OLD_NIGHTLY, HOOK, "", "release"),
    "vec": ("mcv", None, HOOK, "", "release"),
    "vec_dbg": ("mcv", None, HOOK, "", "dbg"),
}

ASAN_OPTIONS = "handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:allow_user_segv_handler=1:use_sigaltstack=0:detect_leaks=0:quarantine_size_mb=1"
# target of the build, environment of the jobs
I686 = "i686-unknown-linux-gnu"
TARGET = {"asan": "x86_64-unknown-linux-gnu", "i686": I686, "i686dbg": I686, "vec32": I686}
# built for aarch64, its code generated for this machine (tools/retarget.py)
NEON = ("neon", "vecneon")
A64 = "aarch64-unknown-linux-gnu"
# run in node (tools/wasm.mjs)
WASM = ("wasm", "wasm0", "vecwasm")
W32 = "wasm32-unknown-unknown"
TARGET.update({c: W32 for c in WASM})
JOBENV = {"asan": {"ASAN_OPTIONS": ASAN_OPTIONS}}

ALL = ["fallback", "sse2", "ssse3", "sse41", "avx2"]
I64 = ["fallback", "ssse3", "avx2"]
I32 = ["fallback", "sse41", "avx2"]
VEC = ["sse2", "ssse3", "sse41", "avx2"]
NEON_PARTS = {
    "C01": ["windows", "groups", "lengths", "align"],
    "C02": ["bytes", "multi", "windows", "groups", "pairs256", "every", "tail", "lengths", "align"],
    "C03": ["bytes", "multi", "duo", "windows", "every", "masks", "ws", "tail", "lengths", "runs", "dst"],
    "C04": ["bytes", "windows", "groups", "lengths", "align"],
    "C05": ["bytes", "multi", "windows", "groups", "pairs256", "every", "tail", "lengths", "align"],
    "C06": ["bytes", "windows", "groups", "lengths", "align"],
    "C07": ["bytes", "multi", "windows", "groups", "pairs256", "every", "tail", "lengths", "align"],
    "C08": ["pairs", "hexpair", "bytes", "lengths", "align"],
    "C09": ["values", "bytes", "align", "flags"],
    "C10": ["bytes", "multi", "pairs", "masks", "windows", "align"],
    "C11": ["bounds", "multi", "pairs", "valid", "windows", "every", "align"],
    "C12": ["windows", "values", "lengths", "align"],
    "C13": ["guard", "canary", "heap", "big"],
    "C14": ["mutate", "forms"],
    "C20": ["edges", "consistent"],
}
NEON_SHARDS = {"C01:groups": 4, "C01:windows": 4, "C02:bytes": 4, "C02:windows": 4, "C13:big": 4, "C09:values": 2, "C10:windows": 2, "C07:windows": 2, "C07:every": 2, "C03:every": 2}
# panics end a WebAssembly program, and its heap has no inaccessible pages
WASM_PARTS = {q: [p for p in ps if (q, p) not in (("C20", "edges"), ("C13", "heap"))] for q, ps in NEON_PARTS.items()}
IHX = ["fallback", "sse2", "ssse3", "avx2"]


def jobs_for(prop, tier):
    """-> list of (config, part, isa, shards, extra args)"""
    t = tier == "thorough"
    J = []

    def add(part, isas=ALL, shards=1, cfg="det", extra=()):
        for isa in isas:
            for s in range(shards):
                J.append((cfg, part, isa, f"{s}/{shards}", tuple(extra)))

    S = 16 if t else 4
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12"):
        add("alignlong", ALL, S if t else 1)
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C14"):
        add("adjacent", ALL, S if t else 1)
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12"):
        isas = {"C01": I64, "C02": I64, "C06": IHX, "C07": IHX, "C12": I64}.get(prop, I32)
        add("steady", isas, S if t else 2)
    if prop in ("C01", "C04", "C06"):
        isas = {"C01": I64, "C04": I32, "C06": IHX}[prop]
        add("windows", isas, S)
        add("groups", isas, S)
        add("bytes", ALL, S)
        add("lengths", ALL, S if t else 1)
        add("align", ALL, S if t else 1)
        add("lengths", isas, 1, "dbg")
        add("lengths", ["native"], 1, "plain")
        add("giant", isas, 1)
    elif prop in ("C02", "C05", "C07"):
        isas = {"C02": I64, "C05": I32, "C07": IHX}[prop]
        add("bytes", ALL, S)
        add("short", isas, S)
        add("windows", isas, S)
        add("groups", isas, S)
        add("pairs256", isas, S)
        add("every", isas, 4 * S)
        add("multi", isas, S)
        add("allpairs", isas, S)
        add("pairs", ALL, S if t else 1)
        add("long1", ALL, S if t else 1)
        add("tail", ALL, S if t else 1)
        add("lengths", ALL, S if t else 1)
        add("align", ALL, S if t else 1)
        add("lengths", isas, 1, "dbg")
        add("tail", isas, 2, "dbg")
        add("lengths", ["native"], 1, "plain")
        add("tail", ["native"], 1, "plain")
        add("giant", isas, 1)
    elif prop == "C03":
        for p in ["bytes", "windows"]:
            add(p, ALL, S)
        add("every", ALL, 2 * S)
        add("multi", I32, 2 * S)
        add("duo", ALL, S)
        for p in ["ws2", "short", "ws", "masks", "tail", "lengths", "runs", "dst", "align"]:
            add(p, ALL, S if t else 1)
        add("tail", I64, 1, "dbg")
        add("lengths", I64, 1, "dbg")
        add("dst", I64, 1, "dbg")
        add("tail", ["native"], 1, "plain")
        add("giant", ["fallback", "sse41", "avx2"], 1)
    elif prop == "C08":
        for p in ["values", "pairs", "hexpair", "bytes", "allpairs"]:
            add(p, ALL, S)
        for p in ["lengths", "align"]:
            add(p, ALL, 1)
        add("lengths", ALL, 1, "dbg")
        add("lengths", ["native"], 1, "plain")
    elif prop == "C09":
        add("values", ALL, S)
        for p in ["bytes", "align", "flags"]:
            add(p, ALL, 1)
        add("bytes", ALL, 1, "dbg")
        add("bytes", ["native"], 1, "plain")
    elif prop == "C10":
        add("windows", ["fallback", "sse2", "avx2"], S)
        add("every", ["fallback", "sse2", "avx2"], S)
        add("multi", ["fallback", "sse2", "avx2"], S)
        for p in ["bytes", "pairs", "masks", "align"]:
            add(p, ALL, S if t else 1)
        add("align", ["fallback", "sse2", "avx2"], 1, "dbg")
        add("align", ["native"], 1, "plain")
        add("giant", ["fallback", "sse2", "avx2"], 1)
    elif prop == "C11":
        add("all", ["fallback", "sse41", "avx2"], 64 if t else 8)
        add("windows", ["fallback", "sse41", "avx2"], S)
        add("every", ["fallback", "sse41", "avx2"], S)
        add("multi", ["fallback", "sse41", "avx2"], S)
        for p in ["bounds", "pairs", "align", "valid"]:
            add(p, ALL, S if t else 1)
        add("bounds", ["fallback", "sse41", "avx2"], 1, "dbg")
        add("bounds", ["native"], 1, "plain")
        add("giant", ["fallback", "sse41", "avx2"], 1)
    elif prop == "C12":
        add("windows", ["fallback", "ssse3", "avx2"], S)
        for p in ["values", "lengths", "align"]:
            add(p, ALL, S if t else 1)
        add("lengths", ["fallback", "ssse3", "avx2"], 1, "dbg")
        add("lengths", ["native"], 1, "plain")
        add("giant", ["fallback", "ssse3", "avx2"], 1)
    elif prop == "C13":
        for p in ["guard", "canary", "heap", "big"]:
            add(p, ALL, S if t else 2)
        for p in ["guard", "heap"]:
            add(p, ["fallback", "sse2", "avx2"], 2, "i686")
        add("fence", ALL, 8 if t else 4, "asan")
        for p in ["guard", "canary", "heap"]:
            add(p, ["fallback", "sse41", "avx2"], 2, "dbg")
        for p in ["guard", "heap"]:
            add(p, ["native"], 2, "plain")
            for c in ["st_ssse3", "st_sse41", "st_avx2"]:
                add(p, ["native"], 2, c)
    elif prop == "C14":
        for p in ["mutate", "forms", "rooms", "reuse"]:
            add(p, ALL, S)
        add("large", ALL, 8)
        add("large", ["fallback", "sse41", "avx2"], 4, "dbg")
        add("forms", ["fallback", "sse41", "avx2"], 2, "dbg")
        add("forms", ["native"], 1, "plain")
    elif prop == "C15":
        for p in ["vec", "string"]:
            add(p, ["fallback", "sse41", "avx2"], 2)
        for p in ["vecgrid", "strgrid"]:
            add(p, ["fallback", "sse41", "avx2"], S)
            add(p, ["avx2"], S if t else 2, "dbg")
            add(p, ["native"], S, "i686")
        add("vec", ["avx2"], 2, "dbg")
        if not t:
            add("string", ["avx2"], 2, "dbg")
    elif prop == "C16":
        add("grid", ALL, S)
        for c in ["dbg", "plain", "nofeat", "alloc", "static", "st_ssse3", "st_sse41", "st_avx2", "unstable"]:
            add("grid", ["native"], S, c)
        add("grid", ["fallback", "ssse3", "sse41"], S, "dbg")
        add("grid", ["fallback", "ssse3", "sse41"], S, "unstable")
        add("cpu", ["native"], 12, "plain")
        add("grid", ALL, S, "i686")
        # the NEON backend: every property of the text and Unicode functions, judged by its own reference
        add("grid", ["native"], S, "neon")
        if not t:
            for q, ps in NEON_PARTS.items():
                for p in ps:
                    add(f"{q}:{p}", ["native"], NEON_SHARDS.get(f"{q}:{p}", 1), "neon")
        # the WebAssembly backend
        for c in ["wasm", "wasm0"] if t else ["wasm"]:
            add("grid", ["simd128"], S, c)
            for q, ps in WASM_PARTS.items():
                for p in ps:
                    add(f"{q}:{p}", ["simd128"], 4 if t else NEON_SHARDS.get(f"{q}:{p}", 1), c)
        if t:
            add("cpu", ["native"], 12, "dbg")
            add("cpu", ["native"], 12, "unstable")
        for c, p in [("nofeat", "step0"), ("alloc", "step0"), ("static", "step0"), ("st_ssse3", "step2"), ("st_sse41", "step3"), ("st_avx2", "step4")]:
            if t or c != "alloc":
                add(p, ["native"], 1, c)
    elif prop == "C17":
        # the deeper preemption bounds are given up when the budget is spent (only code with many more shared accesses needs that)
        b = ("--budget", "1500" if t else "60")
        n = 32 if t else 8
        for p in ["every", "data", "mixed", "three", "sizes"]:
            add(p, ["native"], n, "det", b)
        add("panics", ["native"], n // 2, "det", b)
        add("data", ["native"], n, "plain", b)
        add("every", ["fallback", "sse41"], n // 2, "det", b)
        add("data", ["fallback", "sse41"], n // 2, "det", b)
        if t:
            add("mixed", ["native"], n, "dbg", b)
            add("every", ["sse2", "ssse3"], n, "det", b)
    elif prop == "C18":
        add("lengths", ["native"], 32, "par")
        add("lengths", ["fallback", "ssse3"] if t else ["fallback"], 32, "par")
        add("large", ["native"], 16, "par")
        add("large", ["fallback"], 16 if t else 4, "par")
        add("outside", ["native"], 8 if t else 3, "par")
        add("orders", ["native"], 4, "par")
        add("orders", ["fallback", "ssse3"], 4, "par")
        add("starts", ["native"], 4, "par")
        add("two", ["native", "fallback"], 4, "par")
        add("giant", ["native"], 1, "par")
    elif prop == "C20":
        add("calc", ["native"], 32 if t else 8)
        add("calc", ["native"], 32 if t else 8, "dbg")
        add("edges", ["native"], 8)
        add("edges", ["native"], 8, "dbg")
        add("consistent", ["fallback", "avx2"], 2)
        add("full", ["native"], 32, "i686")
        if t:
            add("full", ["native"], 32, "i686dbg")
        add("calc", ["native"], 8, "i686")
        add("edges", ["native"], 8, "i686")
        add("consistent", ["native"], 2, "i686")
        add("calc", ["native"], 8, "nofeat")
        add("edges", ["native"], 8, "nofeat")
    elif prop == "C21":
        add("fresh", ["fallback", "sse41", "avx2"], 8)
        add("triples", ["sse2", "avx2"] if not t else ALL, S)
        add("pairs", ALL, 2)
        add("repeat", ALL, 2)
        add("deep", ALL, 2)
        add("near", ALL, 8)
        add("sizes", ALL, 4)
        add("place", ALL, 4)
    elif prop == "C19":
        for p in ["bytes", "lanes"]:
            add(p, VEC, 64 if t else 8, "vec")
        add("bytes", VEC, S, "vec_dbg")
        add("lanes", VEC, S, "vec_dbg")
        add("mem", VEC, 1, "vec")
        add("mem", VEC, 1, "vec_dbg")
        for p in ["bytes", "lanes"]:
            add(p, VEC, S, "vec32")
        add("mem", VEC, 1, "vec32")
        for p in ["bytes", "lanes"]:
            add(p, ["neon"], 16, "vecneon")
        add("mem", ["neon"], 1, "vecneon")
        for p in ["bytes", "lanes"]:
            add(p, ["simd128"], 64 if t else 8, "vecwasm")
        add("mem", ["simd128"], 1, "vecwasm")
    elif prop == "C22":
        for p in ["bytes", "lanes"]:
            add(p, VEC, 32 if t else 8, "vec")
            add(p, VEC, S, "vec_dbg")
        for p in ["bytes", "lanes"]:
            add(p, VEC, S, "vec32")
        for p in ["bytes", "lanes"]:
            add(p, ["neon"], 8, "vecneon")
        for p in ["slices", "native", "tools"]:
            add(p, ["neon"], 1, "vecneon")
        for p in ["bytes", "lanes"]:
            add(p, ["simd128"], 32 if t else 4, "vecwasm")
        for p in ["slices", "native", "tools"]:
            add(p, ["simd128"], 1, "vecwasm")
        for c in ["vec", "vec_dbg", "vec32"]:
            add("slices", VEC, 1, c)
            add("native", ["native"], 1, c)
            add("tools", ["native"], 1, c)
    else:
        raise SystemExit(f"no check for {prop}")
    if t and prop not in ("C16", "C17", "C18"):
        # everything the optimised 64-bit build does, on 32 bits as well
        J += [("vec32" if c == "vec" else "i686", p, i, s, e) for c, p, i, s, e in list(J) if c in ("det", "vec") and p != "giant"]
        # and on the NEON backend
        if prop not in ("C19", "C22"):
            J += sorted({("neon", p, "native", s, e) for c, p, i, s, e in J if c == "det" and p != "giant"})
    return J


META = json.load(open(os.path.join(HERE, "tools", "checks.json")))

LOCK = threading.Lock()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "crates"))):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


REPO_PKGS = ("vsimd", "base64-simd", "base32-simd", "hex-simd", "uuid-simd", "unicode-simd")


def build(cfg, rh, threads):
    crate, tc, flags, feats, profile = CONFIGS[cfg]
    tdir = os.path.join(BUILD, cfg)
    stamp = os.path.join(tdir, "repo.hash")
    os.makedirs(tdir, exist_ok=True)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != rh:
        # never trust modification times for the code under test
        for root in [tdir] + [os.path.join(tdir, d) for d in os.listdir(tdir) if os.path.isdir(os.path.join(tdir, d))]:
            for prof in os.listdir(root):
                fp = os.path.join(root, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(REPO_PKGS) or d.startswith("mc"):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ)
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["RUSTFLAGS"] = flags
    env["CARGO_TERM_COLOR"] = "never"
    cmd = ["cargo"] + ([f"+{tc}"] if tc else []) + ["build", "--offline", "--locked", "--target-dir", tdir, "-j", str(threads)]
    cmd += ["--release"] if profile == "release" else ["--profile", profile]
    if feats:
        cmd += ["--features", feats]
    outdir = tdir
    if TARGET.get(cfg) == I686:
        d = os.path.join(BUILD, "l32")
        env["RUSTFLAGS"] += f" -C linker={d}/i686-gcc -C linker-flavor=gcc -C relocation-model=static -L{d}"
        cmd += ["-Zbuild-std=std,panic_unwind", "-Zbuild-std-features=panic-unwind"]
    if cfg in NEON:
        env.update({"CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1", "CARGO_PROFILE_RELEASE_DEBUG": "0"})
        env["RUSTFLAGS"] += " -C linker=/bin/true --emit=llvm-ir"
        cmd += ["-Zbuild-std=std,panic_unwind", "-Zbuild-std-features=panic-unwind", "--target", A64]
    if cfg in WASM:
        if shutil.which("node") is None:
            raise Unavailable("node is not installed")
        vendor = os.path.join(tdir, "vendor")
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
        r = subprocess.run([sys.executable, os.path.join(HERE, "tools", "vendor.py"), os.path.join(HERE, crate, "Cargo.lock"), sysroot, vendor], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Unavailable(r.stdout.strip()[-500:])
        env["RUSTFLAGS"] += " -C link-arg=--export=on_trap"
        cmd += ["-Zbuild-std=std,panic_abort", "--config", 'source.crates-io.replace-with="here"', "--config", f'source.here.directory="{vendor}"']
    if cfg in TARGET:
        cmd += ["--target", TARGET[cfg]]
        outdir = os.path.join(tdir, TARGET[cfg])
    t0 = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        if cfg in NEON or cfg in WASM:
            raise Unavailable(f"the build for {A64 if cfg in NEON else W32} failed")
        raise SystemExit2(f"build of configuration {cfg} failed")
    exe = retarget(tdir, crate) if cfg in NEON else os.path.join(outdir, "release" if profile == "release" else profile, crate + (".wasm" if cfg in WASM else ""))
    if cfg in WASM:
        r = subprocess.run(command(exe) + ["run", "none"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 64:
            raise Unavailable(f"WebAssembly programs do not run here: {r.stdout.strip()[-500:]}")
    open(stamp, "w").write(rh)
    log(f"built {cfg} in {time.time() - t0:.1f} s")
    return exe


def command(exe):
    return ["node", os.path.join(HERE, "tools", "wasm.mjs"), exe] if exe.endswith(".wasm") else [exe]


def llvm_tools():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    d = os.path.join(r.stdout.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return d if all(os.path.exists(os.path.join(d, t)) for t in ("opt", "llc")) else None


def retarget(tdir, crate):
    """The LLVM IR of an aarch64 build -> a program for this machine."""
    found = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(tdir, A64)) for f in fs if f.endswith(".ll") and f[: len(crate) + 1] in (crate + ".", crate + "-")]
    if not found:
        raise Unavailable("no LLVM IR was written")
    ll = max(found, key=os.path.getmtime)
    o = os.path.join(tdir, crate + "_neon")
    d = llvm_tools()
    if d is None:
        raise Unavailable("opt and llc are not installed")
    for cmd in (
        [sys.executable, os.path.join(HERE, "tools", "retarget.py"), ll, o + ".ll"],
        [f"{d}/opt", "-passes=always-inline", "-o", o + ".bc", o + ".ll"],
        [f"{d}/llc", "-O2", "-mattr=+ssse3", "-relocation-model=pic", "-filetype=obj", "-o", o + ".o", o + ".bc"],
        ["cc", "-o", o, o + ".o", "-lgcc_s", "-lc", "-lm", "-lpthread", "-ldl"],
    ):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Unavailable(f"{os.path.basename(cmd[1] if cmd[0] == sys.executable else cmd[0])}: {r.stdout.strip()[-500:]}")
    if crate == "mc" and subprocess.run([o, "run", "C16", "--part", "grid", "--shard", "0/64", "--cfg", "probe"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode not in (0, 1):
        raise Unavailable("the retargeted program does not run")
    return o


class Unavailable(Exception):
    pass


START32 = """
.globl _start
.type _start,@function
_start:
 xorl %ebp,%ebp
 popl %esi
 movl %esp,%ecx
 andl $-16,%esp
 pushl %eax
 pushl %esp
 pushl %edx
 pushl $0
 pushl $0
 pushl %ecx
 pushl %esi
 pushl $main
 call __libc_start_main
 hlt
.section .note.GNU-stack,"",@progbits
"""
LIBS32 = {"c": "libc.so.6", "m": "libm.so.6", "dl": "libdl.so.2", "pthread": "libpthread.so.0", "rt": "librt.so.1", "util": "libutil.so.1", "gcc_s": "libgcc_s.so.1"}


def toolchain32():
    """A linker for i686 from the 32-bit run-time libraries that are installed (there are no 32-bit start files).
    -> directory, or None if 32-bit programs cannot be linked or run here."""
    d = os.path.join(BUILD, "l32")
    os.makedirs(d, exist_ok=True)
    try:
        for k, f in LIBS32.items():
            src = os.path.join("/usr/lib32", f)
            dst = os.path.join(d, f"lib{k}.so")
            if not os.path.exists(src):
                return None
            if not os.path.islink(dst):
                os.symlink(src, dst)
        with open(os.path.join(d, "start.s"), "w") as f:
            f.write(START32)
        sh = lambda *a: subprocess.run(a, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        if sh("as", "--32", "-o", "start.o", "start.s"):
            return None
        w = os.path.join(d, "i686-gcc")
        with open(w, "w") as f:
            f.write(f'#!/bin/sh\nexec cc -m32 -nostartfiles -nodefaultlibs -no-pie "{d}/start.o" "$@" -L"{d}" -lc\n')
        os.chmod(w, 0o755)
        with open(os.path.join(d, "probe.c"), "w") as f:
            f.write("int getpid(void); int main(int c, char **v) { return getpid() > 0 && sizeof(void *) == 4 ? 40 + c : 1; }\n")
        if sh("cc", "-m32", "-c", "-O1", "-fno-pic", "-o", "probe.o", "probe.c") or sh(w, "-o", "probe", "probe.o") or sh("./probe", "x") != 42:
            return None
        return d
    except (OSError, subprocess.SubprocessError):
        return None


class SystemExit2(Exception):
    pass


def build_all(cfgs):
    rh = repo_hash()
    out = {}
    par = min(4, len(cfgs)) or 1
    with cf.ThreadPoolExecutor(par) as ex:
        fs = {c: ex.submit(build, c, rh, max(2, NCPU // par)) for c in cfgs}
        for c, f in fs.items():
            try:
                out[c] = f.result()
            except Unavailable as e:
                log(f"configuration {c} left out: {e}")
    return out


class Run:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.stats = []
        self.viol = None
        self.errors = []
        self.procs = set()
        self.stop = False

    def job(self, exe, j, seen):
        if self.stop:
            return
        cfg, part, isa, shard, extra = j
        prop = self.prop
        if ":" in part:
            prop, part = part.split(":")
        cmd = [*command(exe), "run", prop, "--part", part, "--isa", isa, "--shard", shard, "--tier", self.tier, "--cfg", cfg, *extra]
        fds = ()
        if seen:
            cmd += ["--seen", f"{seen[0]}:{seen[1]}"]
            fds = (seen[0],)
        env = dict(os.environ)
        env.pop("RUST_BACKTRACE", None)
        env.update(JOBENV.get(cfg, {}))
        t0 = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", pass_fds=fds, env=env, start_new_session=True)
        with LOCK:
            self.procs.add(p)
        limit = (300 if cfg in WASM else 780) if self.tier == "quick" else 6 * 3600
        try:
            out, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            kill(p)
            out, err = p.communicate()
            with LOCK:
                self.procs.discard(p)
                self.errors.append(f"timeout: {' '.join(cmd)}")
            return
        with LOCK:
            self.procs.discard(p)
            if self.stop:
                return
            viol = [l for l in out.splitlines() if l.startswith("VIOL ")]
            if viol:
                self.viol = (json.loads(viol[0][5:]), cmd, j)
                self.stop = True
                for q in list(self.procs):
                    kill(q)
                return
            if p.returncode != 0:
                self.errors.append(f"exit {p.returncode}: {' '.join(cmd)}\n{out[-1500:]}\n{err[-1500:]}")
                return
            got = False
            for l in out.splitlines():
                if l.startswith("STAT "):
                    got = True
                    s = json.loads(l[5:])
                    s["job"] = j
                    s["wall"] = time.time() - t0
                    self.stats.append(s)
            if not got:
                self.errors.append(f"no statistics: {' '.join(cmd)}")


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        try:
            p.kill()
        except OSError:
            pass


def write_replay(prop, viol, cmd, job):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "violation": viol, "config": job[0], "part": job[1], "isa": job[2], "command": [os.path.relpath(a, HERE) if a.startswith(HERE) else a for a in cmd]}
    # the shared case bitmap is not needed to repeat the job
    c = body["command"]
    if "--seen" in c:
        i = c.index("--seen")
        del c[i : i + 2]
    name = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{prop}-{name}.json")
    json.dump(body, open(path, "w"), indent=1)
    return path


def check(prop, tier, only=None):
    t0 = time.time()
    jobs = jobs_for(prop, tier)
    if only:
        jobs = [j for j in jobs if j[1] == only]
    cfgs = sorted({j[0] for j in jobs})
    skipped = []
    if any(TARGET.get(c) == I686 for c in cfgs) and toolchain32() is None:
        skipped = [c for c in cfgs if TARGET.get(c) == I686]
        log(f"32-bit programs cannot be built or run here; left out: {skipped}")
        jobs = [j for j in jobs if j[0] not in skipped]
        cfgs = [c for c in cfgs if c not in skipped]
    try:
        exes = build_all(cfgs)
    except SystemExit2 as e:
        log(str(e))
        return 2
    skipped += [c for c in cfgs if c not in exes]
    jobs = [j for j in jobs if j[0] in exes]
    tb = time.time()
    # distinct-case bitmap, shared by all workers of this run
    bits_bytes = 1 << 27
    fd = os.memfd_create("seen")
    os.ftruncate(fd, bits_bytes)
    os.set_inheritable(fd, True)
    run = Run(prop, tier)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: run.job(exes[j[0]], j, (fd, bits_bytes)), jobs))
    rc = 0
    if run.viol is None and not run.errors:
        post = compare_digests(run.stats)
        if post:
            run.viol = post
    if run.viol:
        viol, cmd, job = run.viol
        path = write_replay(prop, viol, cmd, job)
        log(json.dumps(viol)[:3000])
        print(f"violated: {viol.get('what', '')[:600]} (operation {viol.get('op')}, instruction set {viol.get('isa')}, configuration {viol.get('cfg')})")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    elif run.errors:
        for e in run.errors[:5]:
            log("ERROR", e)
        rc = 2
    distinct = 0
    with os.fdopen(fd, "rb") as f:
        f.seek(0)
        while True:
            b = f.read(1 << 22)
            if not b:
                break
            distinct += int.from_bytes(b, "little").bit_count()
    write_evidence(prop, tier, run, distinct, t0, tb, rc, skipped)
    log(f"{prop} {tier}: exit {rc}, {len(run.stats)}/{len(jobs)} jobs, build {tb - t0:.1f} s, total {time.time() - t0:.1f} s, distinct {distinct}")
    return rc


def compare_digests(stats):
    """All configurations and instruction sets must produce the same digest per (part, shard, operation)."""
    ref = {}
    for s in stats:
        for op, d in (s.get("digests") or {}).items():
            key = (s["job"][1], s["job"][3], op)
            if key in ref and ref[key][0] != d:
                o = ref[key][1]
                return (
                    {
                        "what": f"results of {op} differ between configurations: {o[0]}/{o[2]} and {s['job'][0]}/{s['job'][2]} (part {key[0]})",
                        "op": op,
                        "isa": s["job"][2],
                        "cfg": s["job"][0],
                    },
                    ["-", "run"],
                    s["job"],
                )
            ref.setdefault(key, (d, s["job"]))
    return None


def write_evidence(prop, tier, run, distinct, t0, tb, rc, skipped):
    m = META[prop]
    tot = lambda k: sum(s.get(k, 0) for s in run.stats)
    groups = {}
    samples = []
    by_part = {}
    for s in run.stats:
        for k, v in s.get("groups", {}).items():
            groups[k] = groups.get(k, 0) + v
        for q in s.get("samples", []):
            if q not in samples:
                samples.append(q)
        key = f"{s['job'][1]}@{s['job'][0]}"
        d = by_part.setdefault(key, {"cases": 0, "jobs": 0, "isas": []})
        d["cases"] += s["cases"]
        d["jobs"] += 1
        if s["job"][2] not in d["isas"]:
            d["isas"].append(s["job"][2])
    cov = {}
    if m["level"] == "model_checking":
        cov["states"] = groups.get("states", 0)
        cov["transitions"] = groups.get("transitions", 0)
        cov["traces_validated_against_impl"] = groups.get("traces", tot("cases"))
    cov["evaluations"] = tot("cases")
    cov["distinct_nontrivial"] = distinct if distinct else groups.get("distinct", 0)
    cov["rule"] = m["rule"]
    cov["samples"] = samples[:12] or ["(none)"]
    cov["exhaustive"] = rc == 0
    cov["calls_of_the_implementation"] = tot("calls")
    cov["accepted"] = tot("accepted")
    cov["rejected"] = tot("rejected")
    cov["input_bytes"] = tot("bytes")
    cov["groups"] = groups
    cov["parts"] = by_part
    if skipped:
        cov["configurations_not_available_here"] = skipped
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": m["level"],
        "coverage": cov,
        "assumptions": m["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if run.viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 64
    if a[0] == "setup":
        try:
            ok32 = toolchain32() is not None
            build_all([c for c in CONFIGS if (ok32 or TARGET.get(c) != I686)])
        except SystemExit2 as e:
            log(str(e))
            return 2
        return 0
    if a[0] == "replay":
        r = json.load(open(a[1]))
        if TARGET.get(r["config"]) == I686 and toolchain32() is None:
            return 2
        exe = build_all([r["config"]]).get(r["config"])
        if exe is None:
            return 2
        return subprocess.run(command(exe) + r["command"][len(command(exe)) :], env={**os.environ, **JOBENV.get(r["config"], {})}).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    return check(a[0], tier, only)


if __name__ == "__main__":
    sys.exit(main())
