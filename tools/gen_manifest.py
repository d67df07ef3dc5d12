#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/checks.json (what check.py puts into the evidence)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "bounded exhaustive model checking of the implementation against a reference model"
COMMON = [
    "x86_64 unless the configurations say otherwise (i686; NEON compiled for aarch64 and retargeted; WebAssembly in node)",
    "the instruction-set cap hook (cfg vsimd_mc) lowers the result of run-time detection and nothing else; the uncapped, unhooked build is explored too",
    "inputs outside the stated enumeration are not decided",
]
RULE = (
    "A case is one call of the real code: (operation, input bytes, buffer placement and size, instruction set, build). Cases are enumerated exhaustively within the bounds written in samples, never drawn at random. "
    "Non-trivial: the input is not empty. distinct_nontrivial is counted as the bits set in a 2^30-bit hash table of the cases shared by all workers (hash collisions only lower it)."
)
NOTE = (
    "Every case in the stated bounded space is executed on the real code, between inaccessible pages, and compared with an independently written reference model; nothing is sampled. "
    "Trusted: the reference model, the compiler, the CPU. Content beyond the bounds (byte-level combinations not enumerated in long inputs) is not decided."
)
VRULE = (
    "A case is one execution of one vector operation or helper: (operation with its immediate, instruction set, operand values). Operand values are enumerated, never drawn at random; "
    "evaluations counts every execution; distinct_nontrivial counts the executions of the enumeration (the enumeration generates an operand tuple once per pattern; two patterns may meet in a tuple, which is not subtracted)."
)
VNOTE = (
    "Every operation of the enumeration is executed on the real code, compiled for each instruction set that offers it, and compared bit by bit with a scalar definition written independently. "
    "8-bit operands: all pairs of values in every lane; 16-bit: all values against a boundary alphabet (thorough: all pairs); 32/64-bit: boundary alphabets; immediates: all. Interactions between lanes: one byte at a time over ten backgrounds, all subsets of 16 lanes for tests and masks. "
    "Trusted: the scalar definitions, the compiler, the CPU."
)
M = {}
def m(pid, level, technique=TECH, rule=RULE, note=NOTE, assumptions=COMMON):
    M[pid] = dict(level=level, technique=technique, rule=rule, note=note, assumptions=assumptions)

for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"]:
    m(p, "exploration")
m("C13", "exploration", technique="bounded exhaustive exploration of the real code with every buffer placed against an inaccessible page, and under AddressSanitizer with poisoned surroundings",
  note="Every enumerated call runs with source and destination flush against inaccessible pages (both sides), read-only sources, guard bytes, and a heap whose blocks touch inaccessible pages: an access outside faults and is reported with its input. Accesses that stay inside the page are seen in the parts with guard bytes and in the build with AddressSanitizer. " + NOTE)
m("C14", "exploration", technique="bounded exhaustive exploration of all entry points against one reference model")
m("C15", "model_checking", technique="explicit-state breadth-first search over append histories of real buffers against a list model",
  rule="State: (content, capacity) of the real Vec/String; transition: one operation of the alphabet executed on a real buffer rebuilt in that state and on the list model. All transitions of all states up to the depth bound are taken.",
  note="All histories up to the stated depth over the stated alphabet, with states merged when content and capacity agree (the future of a buffer depends on nothing else but the block's address). Every transition is executed on the real code on a guarded heap and compared with the model.",
  assumptions=COMMON[:2] + ["a buffer's future depends only on its content and capacity", "histories longer than the depth bound or with contents beyond the content bound are not explored"])
m("C16", "exploration", technique="bounded exhaustive exploration of every instruction-set level and build configuration, with instruction-level monitoring by single-stepping",
  note="The same exhaustive enumeration on every instruction-set level and in every build configuration, judged by the reference model and by comparing result digests between them; on each level every executed instruction of the library is single-stepped and classified. " + NOTE)
m("C17", "model_checking", technique="stateless model checking of real threads: every interleaving up to a preemption bound, at instruction granularity (single-stepping) or at every access to the library's static data (page protection), each schedule in a fresh forked process",
  rule="One schedule = one forked process in which the real threads run one at a time and are switched at chosen points; every switch point of every thread is tried, up to the preemption bound of the part. In parts 'every' each machine instruction is a scheduling point; in parts 'data', 'mixed', 'three' and 'panics' each access to writable static data is. states = scheduling points reached, transitions = steps executed under control, traces = complete schedules executed and judged.",
  note="Every interleaving with at most the stated number of preemptions, at machine-instruction granularity, of real threads running the real code from a fresh process. Sequentially consistent interleavings only: reorderings that a weak memory model would add are not explored (the shared state is one atomic pointer per function).",
  assumptions=["interleavings are sequentially consistent", "instructions inside libc and the kernel are atomic steps only where they make system calls", "x86_64"])
m("C18", "exploration", technique="exhaustive exploration of lengths x worker counts on real thread pools, and of every order of chunk starts and finishes by holding chunks at page faults",
  rule="A case is one parallel encoding (variant, length, worker count, destination length, imposed order of chunk events) on a real thread pool; cases are enumerated, never drawn at random, each combination once per instruction-set level. Non-trivial: the input is not empty.",
  assumptions=["built with the pinned nightly (the parallel feature needs unstable)"] + COMMON[2:])
m("C19", "exploration", technique="bounded exhaustive exploration of operand values against scalar lane definitions", rule=VRULE, note=VNOTE)
m("C20", "exploration", technique="bounded exhaustive enumeration of sizes against exact big-integer arithmetic")
m("C21", "model_checking", technique="exhaustive enumeration of call histories (all words up to a length over the call alphabet) in one process and from fresh processes",
  rule="A history is a word over the alphabet of calls; every word up to the stated length is executed and its last calls judged against what a fresh process returns. states = calls of the alphabet reached as a position after distinct histories, transitions = calls executed.",
  note="All histories of two calls over the large alphabet, of three calls over one call per entry point, of four to six calls over small alphabets, long repetitions of one call, and all pairs from fresh processes. Longer histories are not explored.",
  assumptions=COMMON)
m("C22", "exploration", technique="bounded exhaustive exploration of operand values against byte-wise definitions", rule=VRULE, note=VNOTE)

READY = os.environ.get("READY", "").split(",") if os.environ.get("READY") else list(M)
titles = {p["id"]: p["title"] for p in props}
json.dump(M, open(os.path.join(HERE, "tools", "checks.json"), "w"), indent=1)
man = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {
        "guard": "cfg vsimd_mc",
        "enable": "RUSTFLAGS='--cfg vsimd_mc' (check.py sets it); adds vsimd::isa::mc::CAP, an upper bound on the run-time detected instruction set",
        "source_commits": ["26af50a"],
    },
    "checks": [
        {
            "property": pid,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
            "technique": M[pid]["technique"],
            "level": M[pid]["level"],
            "level_note": M[pid]["note"],
        }
        for pid in M
        if pid in READY
    ],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in M if p not in READY],
    "notes": "See DESIGN.md. Known findings: known_findings.txt (two fixed defects, none open).",
}
r = subprocess.run(["git", "-C", "/repo", "rev-parse", "26af50a"], capture_output=True, text=True)
if r.returncode == 0:
    man["hooks"]["source_commits"] = [r.stdout.strip()]
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
