"""Ring access on vectors: a circular history, one sample at a time."""
from common import *


def encode(s):
    return flat([s["v"], s["s"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="ring.cpp", arch=a, asan=(a == "sse2"), opt="-O0" if a == "sse2" else "-O2") for a in arches])
    m = ctx.bg(ctx.mc, "MCRing", "MCRing.cfg", must_cover="all")
    ex = ctx.gen("GenRing", "GenRingEx.cfg", simulate=False)
    rnd = ctx.gen("GenRing", "GenRing.cfg", num=6000 if ctx.thorough else 1200, depth=20)
    m.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "RingTrace", "Trace.cfg", ex + rnd, encode, label="ring/" + a)
