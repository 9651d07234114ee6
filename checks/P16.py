"""Transposition of matrices and multidimensional arrays as an index permutation."""
from common import *


def encode(s):
    return flat([s["v"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="transpose.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCTranspose", "MCTransposeDeep.cfg" if ctx.thorough else "MCTranspose.cfg", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCTranspose", "MCTransposeBug.cfg", workers=1)
    g = ctx.bg(ctx.gen, "GenTranspose", "GenTransposeHuge.cfg", num=80 if ctx.thorough else 16, depth=4)
    scripts = ctx.gen("GenTranspose", "GenTranspose.cfg", num=4000 if ctx.thorough else 500, depth=12)
    m.result(), mb.result()
    scripts += g.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "TransposeTrace", "Trace.cfg", scripts, encode, label="transpose/" + a, shards=6, tlc_timeout=900)
