#!/usr/bin/env python3
"""Retargets LLVM IR that rustc made for aarch64 (NEON) to x86_64, so that the NEON backend can be executed here.

usage: retarget.py IN.ll OUT.ll

The IR of the code under test is taken as rustc emitted it: the NEON backend of vsimd is, at this level, generic vector
arithmetic plus a few target intrinsics (`llvm.aarch64.neon.*`). Those, and nothing else, get a definition here, written
from the Arm reference manual. Exit 3: an intrinsic without a definition is used (the caller then leaves this
configuration out and says so in the evidence).
"""
import re
import sys

LAYOUT = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
need = {}


def declare(ret, name, *args):
    need[name] = f"declare {ret} @{name}({', '.join(args)})"


def vec(t):
    """'v16i8' -> (16, 8)"""
    m = re.fullmatch(r"v(\d+)i(\d+)", t)
    if not m:
        raise KeyError(t)
    return int(m[1]), int(m[2])


def ty(n, b):
    return f"<{n} x i{b}>"


def splat(b, x):
    return f"splat (i{b} {x})"


class Fn:
    def __init__(self):
        self.lines = []
        self.k = 0

    def __call__(self, text):
        self.k += 1
        self.lines.append(f"  %t{self.k} = {text}")
        return f"%t{self.k}"

    def raw(self, text):
        self.lines.append("  " + text)


def shuffle(f, n, b, x, y, idx):
    return f(f"shufflevector {ty(n, b)} {x}, {ty(n, b)} {y}, <{len(idx)} x i32> <{', '.join(f'i32 {i}' for i in idx)}>")


def widen8(f, v):
    return shuffle(f, 8, 8, v, "poison", list(range(8)) + [0] * 8)


def lookup(f, tables, idx):
    """bytes tables[idx / 16][idx % 16], 0 where idx is out of range; 16 lanes"""
    declare("<16 x i8>", "llvm.uadd.sat.v16i8", "<16 x i8>", "<16 x i8>")
    declare("<16 x i8>", "llvm.x86.ssse3.pshuf.b.128", "<16 x i8>", "<16 x i8>")
    acc = None
    for k, t in enumerate(tables):
        j = idx if k == 0 else f(f"sub <16 x i8> {idx}, {splat(8, 16 * k)}")
        j = f(f"call <16 x i8> @llvm.uadd.sat.v16i8(<16 x i8> {j}, <16 x i8> {splat(8, 112)})")
        r = f(f"call <16 x i8> @llvm.x86.ssse3.pshuf.b.128(<16 x i8> {t}, <16 x i8> {j})")
        acc = r if acc is None else f(f"or <16 x i8> {acc}, {r}")
    return acc


def clamp(f, n, b, x, lo, hi, signed):
    p = "s" if signed else "u"
    if lo is not None:
        c = f(f"icmp {p}lt {ty(n, b)} {x}, {splat(b, lo)}")
        x = f(f"select <{n} x i1> {c}, {ty(n, b)} {splat(b, lo)}, {ty(n, b)} {x}")
    if hi is not None:
        c = f(f"icmp {p}gt {ty(n, b)} {x}, {splat(b, hi)}")
        x = f(f"select <{n} x i1> {c}, {ty(n, b)} {splat(b, hi)}, {ty(n, b)} {x}")
    return x


def minmax(f, n, b, op, x, y):
    c = f(f"icmp {op[0]}{'gt' if op.endswith('max') else 'lt'} {ty(n, b)} {x}, {y}")
    return f(f"select <{n} x i1> {c}, {ty(n, b)} {x}, {ty(n, b)} {y}")


def body(name, args, ret):
    """-> lines of the function `name` with parameters %a0, %a1, …; raises KeyError when unknown"""
    f = Fn()
    a = [f"%a{i}" for i in range(len(args))]
    op, *ts = name.split(".")
    m = re.fullmatch(r"tb([lx])([1-4])", op)
    if m:
        n, _ = vec(ts[0])
        k = int(m[2])
        if m[1] == "x":
            old, a = a[0], a[1:]
        idx = a[k]
        w = widen8(f, idx) if n == 8 else idx
        r = lookup(f, a[:k], w)
        if n == 8:
            r = shuffle(f, 16, 8, r, "poison", list(range(8)))
        if m[1] == "x":
            c = f(f"icmp ult {ty(n, 8)} {idx}, {splat(8, 16 * k)}")
            r = f(f"select <{n} x i1> {c}, {ty(n, 8)} {r}, {ty(n, 8)} {old}")
        return f, r
    m = re.fullmatch(r"([us])(r?)hadd|([us])hsub", op)
    if m:
        n, b = vec(ts[0])
        ext = {"u": "zext", "s": "sext"}[(m[1] or m[3])]
        x = f(f"{ext} {ty(n, b)} {a[0]} to {ty(n, 2 * b)}")
        y = f(f"{ext} {ty(n, b)} {a[1]} to {ty(n, 2 * b)}")
        s = f(f"{'sub' if m[3] else 'add'} {ty(n, 2 * b)} {x}, {y}")
        if m[2]:
            s = f(f"add {ty(n, 2 * b)} {s}, {splat(2 * b, 1)}")
        s = f(f"lshr {ty(n, 2 * b)} {s}, {splat(2 * b, 1)}")
        return f, f(f"trunc {ty(n, 2 * b)} {s} to {ty(n, b)}")
    m = re.fullmatch(r"([us])abd", op)
    if m:
        n, b = vec(ts[0])
        x, y = minmax(f, n, b, m[1] + "max", *a), minmax(f, n, b, m[1] + "min", *a)
        return f, f(f"sub {ty(n, b)} {x}, {y}")
    m = re.fullmatch(r"[us](max|min)", op)
    if m:
        n, b = vec(ts[0])
        return f, minmax(f, n, b, op, *a)
    m = re.fullmatch(r"([us])(max|min)p|addp", op)
    if m:
        n, b = vec(ts[0])
        x = shuffle(f, n, b, a[0], a[1], list(range(0, 2 * n, 2)))
        y = shuffle(f, n, b, a[0], a[1], list(range(1, 2 * n, 2)))
        return f, f(f"add {ty(n, b)} {x}, {y}") if op == "addp" else minmax(f, n, b, op[:-1], x, y)
    m = re.fullmatch(r"([us])addlp", op)
    if m:
        n, b = vec(ts[-1])
        ext = {"u": "zext", "s": "sext"}[m[1]]
        x = shuffle(f, n, b, a[0], "poison", list(range(0, n, 2)))
        y = shuffle(f, n, b, a[0], "poison", list(range(1, n, 2)))
        x = f(f"{ext} {ty(n // 2, b)} {x} to {ty(n // 2, 2 * b)}")
        y = f(f"{ext} {ty(n // 2, b)} {y} to {ty(n // 2, 2 * b)}")
        return f, f(f"add {ty(n // 2, 2 * b)} {x}, {y}")
    m = re.fullmatch(r"([us])(max|min|add|addl)v", op)
    if m:
        n, b = vec(ts[-1])
        rb = int(ts[0][1:])
        ext = {"u": "zext", "s": "sext"}[m[1]]
        es = [f(f"extractelement {ty(n, b)} {a[0]}, i64 {i}") for i in range(n)]
        acc = es[0]
        if m[2] == "addl":
            es = [f(f"{ext} i{b} {e} to i{rb}") for e in es]
            b, acc = rb, es[0]
        for e in es[1:]:
            if m[2].startswith("add"):
                acc = f(f"add i{b} {acc}, {e}")
            else:
                c = f(f"icmp {m[1]}{'gt' if m[2] == 'max' else 'lt'} i{b} {acc}, {e}")
                acc = f(f"select i1 {c}, i{b} {acc}, i{b} {e}")
        return f, acc if b == rb else f(f"{ext} i{b} {acc} to i{rb}")
    m = re.fullmatch(r"([us])q(add|sub)", op)
    if m and ts[0].startswith("v"):
        n, b = vec(ts[0])
        fn = f"llvm.{m[1]}{m[2]}.sat.{ts[0]}"
        declare(ty(n, b), fn, ty(n, b), ty(n, b))
        return f, f(f"call {ty(n, b)} @{fn}({ty(n, b)} {a[0]}, {ty(n, b)} {a[1]})")
    m = re.fullmatch(r"([us])mull", op)
    if m:
        n, b = vec(ts[0])
        ext = {"u": "zext", "s": "sext"}[m[1]]
        x = f(f"{ext} {ty(n, b // 2)} {a[0]} to {ty(n, b)}")
        y = f(f"{ext} {ty(n, b // 2)} {a[1]} to {ty(n, b)}")
        return f, f(f"mul {ty(n, b)} {x}, {y}")
    m = re.fullmatch(r"uqxtn|sqxtn|sqxtun", op)
    if m:
        n, b = vec(ts[0])
        w = 2 * b
        if op == "uqxtn":
            x = clamp(f, n, w, a[0], None, (1 << b) - 1, False)
        elif op == "sqxtn":
            x = clamp(f, n, w, a[0], -(1 << (b - 1)), (1 << (b - 1)) - 1, True)
        else:
            x = clamp(f, n, w, a[0], 0, (1 << b) - 1, True)
        return f, f(f"trunc {ty(n, w)} {x} to {ty(n, b)}")
    m = re.fullmatch(r"([us])shl", op)
    if m:
        # shift left by the signed low byte of each lane, right when it is negative
        n, b = vec(ts[0])
        t = ty(n, b)
        s = f(f"trunc {t} {a[1]} to <{n} x i8>") if b > 8 else a[1]
        s = f(f"sext <{n} x i8> {s} to {t}") if b > 8 else s
        neg = f(f"icmp slt {t} {s}, zeroinitializer")
        abs_ = f(f"sub {t} zeroinitializer, {s}")
        big_l = f(f"icmp sge {t} {s}, {splat(b, b)}")
        big_r = f(f"icmp uge {t} {abs_}, {splat(b, b)}")
        sl = f(f"select <{n} x i1> {big_l}, {t} zeroinitializer, {t} {s}")
        sl = f(f"select <{n} x i1> {neg}, {t} zeroinitializer, {t} {sl}")
        l = f(f"shl {t} {a[0]}, {sl}")
        l = f(f"select <{n} x i1> {big_l}, {t} zeroinitializer, {t} {l}")
        sr = f(f"select <{n} x i1> {big_r}, {t} {splat(b, b - 1)}, {t} {abs_}")
        sr = f(f"select <{n} x i1> {neg}, {t} {sr}, {t} zeroinitializer")
        r = f(f"{'lshr' if m[1] == 'u' else 'ashr'} {t} {a[0]}, {sr}")
        if m[1] == "u":
            r = f(f"select <{n} x i1> {big_r}, {t} zeroinitializer, {t} {r}")
        return f, f(f"select <{n} x i1> {neg}, {t} {r}, {t} {l}")
    m = re.fullmatch(r"(st|ld)(1x)?([2-4])", op)
    if m:
        n, b = vec(ts[0])
        k = int(m[3])
        step = n * b // 8
        size = b // 8
        p = a[-1]
        if m[2]:
            addr = [[f(f"getelementptr i8, ptr {p}, i64 {q * step}")] for q in range(k)]
        else:
            addr = [[f(f"getelementptr i8, ptr {p}, i64 {(i * k + q) * size}") for i in range(n)] for q in range(k)]
        if m[1] == "st":
            for q in range(k):
                if m[2]:
                    f.raw(f"store {ty(n, b)} {a[q]}, ptr {addr[q][0]}, align 1")
                else:
                    for i in range(n):
                        e = f(f"extractelement {ty(n, b)} {a[q]}, i64 {i}")
                        f.raw(f"store i{b} {e}, ptr {addr[q][i]}, align 1")
            return f, None
        st = "{ " + ", ".join([ty(n, b)] * k) + " }"
        acc = "poison"
        for q in range(k):
            if m[2]:
                v = f(f"load {ty(n, b)}, ptr {addr[q][0]}, align 1")
            else:
                v = "poison"
                for i in range(n):
                    e = f(f"load i{b}, ptr {addr[q][i]}, align 1")
                    v = f(f"insertelement {ty(n, b)} {v}, i{b} {e}, i64 {i}")
            acc = f(f"insertvalue {st} {acc}, {ty(n, b)} {v}, {q}")
        return f, acc
    m = re.fullmatch(r"rbit", op)
    if m:
        n, b = vec(ts[0])
        fn = f"llvm.bitreverse.{ts[0]}"
        declare(ty(n, b), fn, ty(n, b))
        return f, f(f"call {ty(n, b)} @{fn}({ty(n, b)} {a[0]})")
    raise KeyError(name)


def main():
    s = open(sys.argv[1]).read()
    s = re.sub(r"^target datalayout = .*$", f'target datalayout = "{LAYOUT}"', s, flags=re.M)
    s = re.sub(r"^target triple = .*$", 'target triple = "x86_64-unknown-linux-gnu"', s, flags=re.M)
    s = re.sub(r' "target-(cpu|features)"="[^"]*"', "", s)
    s = re.sub(r' "branch-target-enforcement"="[^"]*"| "sign-return-address[\w-]*"="[^"]*"', "", s)
    defs, unknown = [], []
    for m in re.finditer(r"^declare ([^@]*?)@llvm\.aarch64\.(neon\.)?([\w.]+)\((.*?)\)[^\n]*$", s, flags=re.M):
        ret, neon, name, args = m[1], m[2], m[3], m[4]
        ret = re.sub(r"\b(noundef|range\([^)]*\))\s*", "", ret).strip()
        # parameter types, without attributes
        ps = [re.match(r"(<\d+ x i\d+>|ptr|i\d+)", p.strip()) for p in re.split(r",\s*(?![^(]*\))", args)] if args else []
        if any(p is None for p in ps):
            unknown.append(m[3])
            continue
        ps = [p[1] for p in ps]
        head = f"define internal {ret} @neonsim.{name}({', '.join(f'{t} %a{i}' for i, t in enumerate(ps))}) alwaysinline nounwind {{\n"
        if not neon and name in ("isb", "dsb", "dmb", "hint"):
            defs.append(head + "  ret void\n}\n")
            continue
        try:
            if not neon:
                raise KeyError(name)
            f, r = body(name, ps, ret)
        except (KeyError, IndexError):
            unknown.append(name)
            continue
        defs.append(head + "\n".join(f.lines) + (f"\n  ret {ret} {r}\n}}\n" if r else "\n  ret void\n}\n"))
    s = re.sub(r"^declare .*@llvm\.aarch64\..*$", "", s, flags=re.M)
    s = s.replace("@llvm.aarch64.neon.", "@neonsim.").replace("@llvm.aarch64.", "@neonsim.")
    if unknown:
        print("no definition for:", *sorted(unknown), file=sys.stderr)
        sys.exit(3)
    asm = {a for a in re.findall(r'asm (?:sideeffect |alignstack |unwind )*"([^"]*)"', s) if a.strip()}
    if asm:
        print("inline assembly:", *sorted(asm), file=sys.stderr)
        sys.exit(3)
    for n, d in need.items():
        if not re.search(r"^declare .*@" + re.escape(n) + r"\(", s, flags=re.M):
            s += "\n" + d
    if re.search(r"@__rust_enable_lse\b", s) and not re.search(r"^define .*@__rust_enable_lse\b", s, flags=re.M):
        s = re.sub(r"^declare .*@__rust_enable_lse\b.*$", "", s, flags=re.M)
        s += "\ndefine void @__rust_enable_lse() {\n  ret void\n}\n"
    s += "\n" + "\n".join(defs)
    open(sys.argv[2], "w").write(s)
    print(f"{len(defs)} intrinsics, {len(re.findall(r'call [^@]*@neonsim', s))} calls")


main()
