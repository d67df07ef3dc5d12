#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "ascii-page-overread": "part `fence` (AddressSanitizer) added",
    "inplace-tail-first": "part `large` added",
    "par-chunk-cap": "part `large` added",
    "ascii-memo": "part `place` added",
    "uuid-same-shape": "part `near` added",
    "forgiving-scratch": "C17 part `sizes` and coarse steps added",
    "forgiving-swar": "part `duo` added",
    "surplus-scratch": "part `rooms` added",
    "ascii-prologue": "part `alignlong` added",
    "swap-overlap-guess": "part `adjacent` added",
    "swap-peel": "part `alignlong` added",
    "b64-enc-peel": "part `alignlong` added",
    "b32-lead-flag": "part `alignlong` added",
    "b64-sum-cache": "part `steady` added",
    "hex-dst-skip": "part `reuse` added",
    "utf32-long-avx2": "longer inputs under the instruction monitor",
    "hex-x2-xor": "two-operand texts added",
}
p = V + "/DESIGN.md"
s = open(p).read()
h = "## 6. Planted bugs and what catches them\n"
s = s[: s.index(h) + len(h)]
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    n = NOTE.get(i, "")
    rows.append((m["property"], i, m["needs"].strip(), ("first missed; " + n) if n else ""))
rows.sort()
s += f"""
{len(rows)} bugs. Every one compiles, passes the stable tests, and has a demonstration. Each is caught by the quick check of its
property.

| property | bug (`seeded/`) | needs | note |
|---|---|---|---|
"""
s += "".join(f"| {a} | {b} | {c} | {n} |\n" for a, b, c, n in rows)
s += """
Written and thrown away because a stable test fails on them: a shorter loop bound in base64 decoding (the suite's ASAN run
finds it), a wrong ceiling in `par_encode` (`parallel_encode`).
"""
open(p, "w").write(s)
