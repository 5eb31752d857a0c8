#!/usr/bin/env python3
"""Writes harness/src/derive_types.rs: random structures using the writer derive, with generators of values and of
their expected layout trees. Deterministic; the output is committed."""
import random, os
R = random.Random(20240607)
PRIMS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"]
NZ = ["NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroU128", "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroI128", "NonZeroUsize"]
out = []
types = []  # (name, weight, flat)
generic = []  # name of types with one type parameter
def w(n):
    return next(t[1] for t in types if t[0] == n)
def isflat(n):
    return next(t[2] for t in types if t[0] == n)
def field(depth, maxw, flat):
    """(type text, weight)"""
    k = R.random()
    if depth > 3 or maxw < 3 or k < 0.30:
        return R.choice(PRIMS), 1
    if k < 0.34:
        return R.choice(NZ), 1
    if k < 0.36:
        return "()", 1
    if k < 0.48:
        c = [t for t in types if t[1] <= maxw and (t[2] or not flat)]
        if c:
            t = R.choice(c[-40:])
            return t[0], t[1]
        return R.choice(PRIMS), 1
    if k < 0.52:
        t, x = field(depth + 1, maxw // 3, flat)
        n = R.choice([1, 2, 3])
        return f"[{t}; {n}]", x * n
    if k < 0.58:
        t, x = field(depth + 1, maxw // 3, flat)
        return f"Vec<{t}>", 1 + x
    if k < 0.63:
        t, x = field(depth + 1, maxw // 2, flat)
        return f"Option<{t}>", 1 + x
    if flat:
        return R.choice(PRIMS), 1
    if k < 0.66 and generic:
        t, x = field(depth + 1, maxw // 4, flat)
        return f"{R.choice(generic)}<{t}>", 3 * x + 2
    if k < 0.78:
        t, x = field(depth + 1, maxw // 2, flat)
        return f"RelPtr64<{t}>", 1 + x
    if k < 0.84:
        t, x = field(depth + 1, maxw // 2, flat)
        p = R.choice(["Ptr64", "Ptr64", "Ptr64", "Ptr32", "Ptr16"])
        return f"{p}<{t}>", 1 + x
    if k < 0.92:
        t, x = field(depth + 1, maxw // 2, flat)
        return f"SsbhArray<{t}>", 1 + x
    if k < 0.96:
        return R.choice(["SsbhString", "SsbhString8"]), 1
    return "SsbhByteBuffer", 1
def opts(**kw):
    s = ", ".join(f"{k} = {v}" for k, v in kw.items() if v is not None)
    return f"#[ssbhwrite({s})]" if s else ""
def items(n, flat, tail, named, maxw):
    """fields as (decl, name, type, pad, align)"""
    fs, tot = [], 0
    for i in range(n):
        t, x = field(0, maxw - tot, flat)
        tot += x
        pad = R.choice([1, 2, 3, 4, 6, 8, 16]) if R.random() < 0.2 else None
        al = None
        if tail == "any" and R.random() < 0.3 or tail == "last" and i == n - 1 and R.random() < 0.5:
            al = R.choice([2, 4, 8, 16, 32])
        o = opts(pad_after=pad, align_after=al)
        nm = f"f{i}"
        vis = "pub "
        fs.append((o, nm, t, pad or 0, al or 0))
    return fs, tot
def rec(magic, fs, vp, va, p, a):
    it = ", ".join(f"(n_{f[1]}, {f[3]}, {f[4]})" for f in fs)
    m = f"{magic}.to_vec()" if magic else "vec![]"
    return f"Node::Rec {{ magic: {m}, items: vec![{it}], vpad: {vp or 0}, valign: {va or 0}, pad: {p or 0}, align: {a or 0} }}"
def lets(fs):
    return " ".join(f"let ({f[1]}, n_{f[1]}) = <{f[2]} as Gen>::gen(r);" for f in fs)
MAGIC = ['b"MAGC"', 'b"X"', 'b"\\x00\\x01\\x02"', 'b"HBSSHBSS"']
def make(i, tail=None):
    kind = R.choice(["named", "named", "named", "tuple", "tuple", "enum", "enum", "enum", "repr", "generic"])
    if tail and kind in ("repr", "generic"):
        kind = "named"
    flat = tail == "any" or R.random() < 0.25
    name = f"T{i}"
    pad = R.choice([1, 2, 4, 5, 8, 12, 16]) if R.random() < 0.3 else None
    al = R.choice([4, 8, 16, 64]) if tail and R.random() < 0.5 else None
    magic = R.choice(MAGIC) if R.random() < 0.25 else None
    dalign = R.choice([1, 2, 4, 8, 16, 32, 3]) if R.random() < 0.35 else None
    head = opts(pad_after=pad, align_after=al, alignment=dalign, magic=magic)
    maxw = R.choice([4, 8, 16, 30])
    align = f"{dalign}" if dalign else "std::mem::align_of::<Self>() as u64"
    if kind == "repr":
        p = R.choice(["u8", "u16", "u32", "u64", "i8", "i32", "i64"])
        n = R.randint(1, 5)
        vals = R.sample(range(-100 if p[0] == "i" else 0, 120), n)
        if p in ("u16", "u32", "u64"):
            vals[0] = 0xfedc
        vs = ", ".join(f"V{k} = {v}" for k, v in enumerate(vals))
        # the representation given as an attribute of its own, with or without the other options
        head = "\n".join([f"#[ssbhwrite(repr({p}))]"] + ([head] if head else []))
        body = f"#[derive(Debug, SsbhWrite, Clone, Copy)]\n#[repr({p})]\n{head}\npub enum {name} {{ {vs} }}"
        arms = ", ".join(f"{k} => ({name}::V{k}, ({v}i128 as {p}))" for k, v in enumerate(vals[:-1]))
        arms += (", " if arms else "") + f"_ => ({name}::V{n-1}, ({vals[-1]}i128 as {p}))"
        m = f"{magic}.to_vec()" if magic else "vec![]"
        g = f"let (v, n) = match r.pick({n}) {{ {arms} }}; (v, Node::Rec {{ magic: {m}, items: vec![(Node::Prim(n.to_le_bytes().to_vec()), 0, 0)], vpad: 0, valign: 0, pad: {pad or 0}, align: 0 }})"
        align = f"{dalign}" if dalign else f"std::mem::align_of::<{p}>() as u64"
        wt = 1
        flat = True
    elif kind in ("named", "tuple"):
        n = R.randint(1, 6)
        fs, wt = items(n, flat, tail, kind == "named", maxw)
        if kind == "named":
            decl = " ".join(f"{f[0]} pub {f[1]}: {f[2]}," for f in fs)
            body = f"#[derive(Debug, SsbhWrite)]\n{head}\npub struct {name} {{ {decl} }}"
            con = f"{name} {{ {', '.join(f[1] for f in fs)} }}"
        else:
            decl = ", ".join(f"{f[0]} pub {f[2]}" for f in fs)
            body = f"#[derive(Debug, SsbhWrite)]\n{head}\npub struct {name}({decl});"
            con = f"{name}({', '.join(f[1] for f in fs)})"
        g = f"{lets(fs)} ({con}, {rec(magic, fs, None, None, pad, al)})"
    elif kind == "enum":
        nv = R.randint(1, 4)
        vs, arms, wt = [], [], 0
        for k in range(nv):
            named = R.random() < 0.5
            fs, x = items(R.randint(1, 4), flat, "last" if tail == "last" else tail, named, maxw)
            wt = max(wt, x)
            vp = R.choice([1, 2, 4, 8]) if R.random() < 0.3 else None
            va = R.choice([4, 8, 16]) if tail and R.random() < 0.3 else None
            vo = opts(pad_after=vp, align_after=va)
            if named:
                vs.append(f"{vo} V{k} {{ {' '.join(f'{f[0]} {f[1]}: {f[2]},' for f in fs)} }}")
                con = f"{name}::V{k} {{ {', '.join(f[1] for f in fs)} }}"
            else:
                vs.append(f"{vo} V{k}({', '.join(f'{f[0]} {f[2]}' for f in fs)})")
                con = f"{name}::V{k}({', '.join(f[1] for f in fs)})"
            arms.append(f"{k if k < nv - 1 else '_'} => {{ {lets(fs)} ({con}, {rec(magic, fs, vp, va, pad, al)}) }}")
        body = f"#[derive(Debug, SsbhWrite)]\n{head}\npub enum {name} {{ {', '.join(vs)} }}"
        g = f"match r.pick({nv}) {{ {' '.join(arms)} }}"
    else:
        fs, wt = items(R.randint(0, 2), flat, None, True, 6)
        tf = R.choice(["T", "RelPtr64<T>", "Vec<T>", "Option<T>", "SsbhArray<T>", "[T; 2]"])
        fs.append(("", "g0", "T", R.choice([0, 0, 4]), 0))
        fs[-1] = (opts(pad_after=fs[-1][3] or None),) + fs[-1][1:]
        fs.append(("", "g1", tf, 0, 0))
        decl = " ".join(f"{f[0]} pub {f[1]}: {f[2]}," for f in fs)
        body = f"#[derive(Debug, SsbhWrite)]\n{head}\npub struct {name}<T: SsbhWrite> {{ {decl} }}"
        con = f"{name} {{ {', '.join(f[1] for f in fs)} }}"
        g = f"{lets(fs)} ({con}, {rec(magic, fs, None, None, pad, None)})"
        out.append(body)
        out.append(f"impl<T: Gen> Gen for {name}<T> {{ fn gen(r: &mut G) -> (Self, Node) {{ {g} }} fn align() -> u64 {{ {align} }} }}")
        generic.append(name)
        return f"{name}<{R.choice(PRIMS + [t[0] for t in types[-20:]])}>"
    out.append(body)
    out.append(f"impl Gen for {name} {{ fn gen(r: &mut G) -> (Self, Node) {{ {g} }} fn align() -> u64 {{ {align} }} }}")
    if not tail:
        types.append((name, wt, flat))
    return name
roots = [make(i) for i in range(220)]
tails = [make(300 + i, R.choice(["any", "last"])) for i in range(40)]
src = "// Written by tools/gen_derive.py; do not edit.\n#![allow(dead_code)]\nuse crate::props_derive::{Gen, Node, Shape, G};\nuse ssbh_lib::{Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};\nuse ssbh_write::SsbhWrite;\nuse std::num::*;\n\n"
src += "\n".join(out) + "\n\n"
src += "pub fn shapes() -> Vec<Shape> {\n    vec![\n"
for t in roots:
    src += f"        Shape::new::<{t}>(\"{t}\", true),\n"
for t in tails:
    src += f"        Shape::new::<{t}>(\"{t}\", false),\n"
src += "    ]\n}\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/derive_types.rs"), "w").write(src)
