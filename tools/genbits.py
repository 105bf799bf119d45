#!/usr/bin/env python3
"""Writes contracts/spec/a_bits.rs: arithmetic meaning of masks, shifts and ors.

One broadcast lemma per operator, type and literal, so that only the facts about the
literals of a function are instantiated."""
import os
out = []
p = out.append
p("// written by tools/genbits.py")
p("verus! {")
names = []
casts = []
W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}
N = [0]


def lemma(params, req, trig, val, extra=()):
    """trig == val under req"""
    N[0] += 1
    n = "b%d" % N[0]
    names.append(n)
    p(f"pub broadcast proof fn {n}({params})")
    if req:
        p(f"    requires {req},")
    p(f"    ensures (#[trigger] ({trig})) == {val},")
    p("{")
    if req:
        p(f"    assert(({trig}) == {val}) by (bit_vector) requires {req};")
    else:
        p(f"    assert(({trig}) == {val}) by (bit_vector);")
    p("}")


def low(v, lo, hi, w):
    """value of the bits lo .. hi of v"""
    if lo == 0 and hi == w:
        return v
    if lo == 0:
        return f"({v} % {1 << hi})"
    if hi == w:
        return f"({v} - {v} % {1 << lo})"
    return f"(({v} % {1 << hi}) - ({v} % {1 << lo}))"


for t, w in W.items():
    if w == 8:
        pairs = [(lo, hi) for lo in range(w) for hi in range(lo + 1, w + 1)]
    elif w == 16:
        pairs = [(lo, hi) for lo in range(w) for hi in range(lo + 1, w + 1) if lo == 0 or hi == 16 or lo in (4, 8, 12) or hi - lo == 1]
    elif w == 32:
        pairs = [(0, hi) for hi in range(1, w)] + [(8, 16), (16, 24), (24, 32), (22, 24), (31, 32)]
    else:
        pairs = [(0, hi) for hi in range(1, 34)] + [(7, 8)]
    for lo, hi in pairs:
        m = (1 << hi) - (1 << lo)
        e = low("v", lo, hi, w)
        lemma(f"v: {t}", "", f"v & {m}{t}", e)
        lemma(f"v: {t}", "", f"{m}{t} & v", e)
        if w <= 16 and not (lo == 0 and hi == w):
            # total: the field is set to ones
            rest = f"v - {e} + {m}"
            lemma(f"v: {t}", "", f"v | {m}{t}", rest)
            lemma(f"v: {t}", "", f"{m}{t} | v", rest)
        if w <= 16 and hi == w and lo > 0:
            lemma(f"v: {t}, b: {t}", f"b < {1 << lo}", f"(v & {m}{t}) | b", f"{e} + b")
            lemma(f"v: {t}, b: {t}", f"b < {1 << lo}", f"b | (v & {m}{t})", f"{e} + b")
    # a single bit cleared
    if w == 8:
        for k in range(8):
            m = 255 - (1 << k)
            if any((1 << hi) - (1 << lo) == m for lo, hi in pairs):
                continue
            lemma("v: u8", "", f"v & {m}u8", f"v - (v / {1 << k}) % 2 * {1 << k}")
    for k in range(1, min(w, 49)):
        lemma(f"v: {t}", "", f"v >> {k}{t}", f"v / {1 << k}")
        lemma(f"v: {t}", "", f"v << {k}{t}", f"(v % {1 << (w - k)}) * {1 << k}")
        if w <= 32:
            sh = f"(v % {1 << (w - k)}) * {1 << k}"
            lemma(f"v: {t}, b: {t}", f"b < {1 << k}", f"(v << {k}{t}) | b", f"{sh} + b")
            lemma(f"v: {t}, b: {t}", f"b < {1 << k}", f"b | (v << {k}{t})", f"{sh} + b")
            lemma(f"x: {t}, v: {t}, b: {t}", f"b < {1 << k}, x % {1 << k} == 0", f"(x | (v << {k}{t})) | b", f"(x | (v << {k}{t})) + b")
    if w == 16:
        # a value with free low bits, shifted, takes more than the shift
        for j in range(9, 16):
            lemma("v: u16, b: u16", f"b < {1 << j}, v < 256, v % {1 << (j - 8)} == 0", "(v << 8u16) | b", "v * 256 + b")
    if w > 8:
        for s, sw in (("u8", 8), ("u16", 16), ("u32", 32)):
            if sw < w:
                lemma(f"v: {t}", "", f"v as {s}", f"v % {1 << sw}")
                casts.append(names.pop())
for t, w in W.items():
    N[0] += 1
    n = "b%d" % N[0]
    names.append(n)
    p(f"pub broadcast proof fn {n}(v: {t})")
    p(f"    ensures (#[trigger] (!v)) == {(1 << w) - 1} - v,")
    p("{")
    p(f"    assert((!v) == {(1 << w) - 1} - v) by (bit_vector);")
    p("}")
p("/// masks and shifts")
p("pub broadcast group group_mask {")
for n in names:
    p(f"    {n},")
p("}")
p("/// masks, shifts and truncations")
p("pub broadcast group group_bits {")
for n in ["group_mask"] + casts:
    p(f"    {n},")
p("}")
p("} // verus!")
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "spec")
open(os.path.join(d, "a_bits.rs"), "w").write("\n".join(out) + "\n")

# fields put together from parts that are not literal
out.clear()
names.clear()
p("// written by tools/genbits.py")
p("verus! {")
for t, ks in (("u8", range(7, 0, -1)), ("u16", range(15, 0, -1)), ("u32", (24, 23, 22, 20, 16, 12, 8, 4)), ("u64", range(40, 0, -1))):
    w = t[1:]
    if t != "u64":
        names.append(f"or{w}")
    p("/// halves without common bits")
    p(f"pub broadcast proof fn or{w}(x: {t}, y: {t})\n    ensures\n        #![trigger (x | y)]")
    facts = [f"(x % {1 << k} == 0 && y < {1 << k}) || (y % {1 << k} == 0 && x < {1 << k}) ==> (x | y) == x + y" for k in ks]
    for f in facts:
        p(f"        {f},")
    p("{")
    for f in facts:
        p(f"    assert({f}) by (bit_vector);")
    p("}")
for t in ("u8", "u16", "u32"):
    names.append(f"shl0_{t[1:]}")
    p(f"pub broadcast proof fn {names[-1]}(x: {t})\n    ensures #[trigger] (x << 0{t}) == x,")
    p(f"{{\n    assert((x << 0{t}) == x) by (bit_vector);\n}}")
names64 = ["or64"]
for k in range(1, 41):
    for e in (f"(v << {k}u64) | b", f"b | (v << {k}u64)"):
        names64.append(f"put64_{len(names64)}")
        r = f"v < {1 << (64 - k)}, b < {1 << k}"
        p(f"pub broadcast proof fn {names64[-1]}(v: u64, b: u64)\n    requires {r},\n    ensures #[trigger] ({e}) == v * {1 << k} + b,")
        p(f"{{\n    assert(({e}) == v * {1 << k} + b) by (bit_vector) requires {r};\n}}")
p("pub broadcast group group_or64 {")
for n in names64:
    p(f"    {n},")
p("}")
p("// bit fields")
for lo in range(1, 8):
    for n in range(1, 8 - lo + 1):
        m = ((1 << n) - 1) << lo
        e = f"((v & {m}u8) >> {lo}u8)"
        v = f"v / {1 << lo}" + (f" % {1 << n}" if lo + n < 8 else "")
        names.append(f"field{lo}_{n}")
        p(f"pub broadcast proof fn {names[-1]}(v: u8)\n    ensures #[trigger] {e} == {v},")
        p(f"{{\n    assert({e} == {v}) by (bit_vector);\n}}")
p("pub broadcast group group_or {")
for n in names:
    p(f"    {n},")
p("}")
p("} // verus!")
open(os.path.join(d, "a_or.rs"), "w").write("\n".join(out) + "\n")
