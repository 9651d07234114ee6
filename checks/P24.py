"""Vector operations, lane by lane."""
from common import *

TYPES = dict(u8="kfr::u8", i8="kfr::i8", i16="kfr::i16", u16="kfr::u16", i32="kfr::i32", u32="kfr::u32", i64="kfr::i64",
             u64="kfr::u64", f32="kfr::f32", f64="kfr::f64", c32="kfr::complex<kfr::f32>")
KINDS = [("perm", 1, ["u8", "i16", "f32", "f64", "i64", "c32"]),
         ("int", 2, ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]),
         ("flt", 3, ["f32", "f64"]),
         ("mem", 4, ["u8", "i32", "f64", "c32"])]
FEW = {"perm/f32", "perm/u8", "int/i8", "int/u16", "int/i32", "int/u64", "flt/f32", "flt/f64", "mem/f64"}


def encode(s):
    out = [s["t"], s["n"], s["size"], len(s["ops"])]
    for o in s["ops"]:
        kind, o = o[0], o[1:]
        if kind == "perm":
            out += [o[0], len(o[1]), o[1], o[2], o[3], o[4]]
        elif kind == "mem":
            out += [o[0], o[1], o[2], o[3], o[4], len(o[5]), o[5]]
        else:
            out += o
    return flat(out)


def run(ctx):
    archs = arch_list(ctx, base=("sse2", "avx2", "avx512"), extra=("sse41", "avx"))
    specs, jobs = [], []
    for arch in archs:
        for kind, part, types in KINDS:
            for t in types:
                v = kind + "/" + t
                if arch != "sse2" and arch != "avx2" and not ctx.thorough and v not in FEW:
                    continue
                specs.append(dict(harness="vec.cpp", arch=arch, opt="-O1", asan=kind == "mem", defs=["PART=%d" % part, "VT=" + TYPES[t]]))
                jobs.append((arch + "/" + v, {v}))
    fut = ctx.bg(ctx.compile_many, specs)
    m = ctx.bg(ctx.mc, "MCVec", "MCVecDeep.cfg" if ctx.thorough else "MCVec.cfg", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCVec", "MCVecBug.cfg", workers=1)
    scripts = ctx.gen("GenVec", "GenVec.cfg", num=16 if ctx.thorough else 2, depth=300)
    m.result(), mb.result()
    conform_parts(ctx, [(exe, a, v) for exe, (a, v) in zip(fut.result(), jobs)], "VecTrace", scripts, encode, "vec", shards=1)
