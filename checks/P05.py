"""Sample rate conversion: one stream however it is cut into calls."""
from common import *


def encode(s):
    return flat([s["t"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="src.cpp", arch=a, libs=["src"], opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCSrc", "MCSrcDeep.cfg" if ctx.thorough else "MCSrc.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCSrc", "MCSrcBug.cfg", workers=1)
    scripts = ctx.gen("GenSrc", "GenSrc.cfg", num=3000 if ctx.thorough else 300, depth=16)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "SrcTrace", "Trace.cfg", scripts, encode, label="src/" + a, shards=6)
