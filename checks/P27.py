"""Filter design: the transfer function that was asked for."""
from common import *


def encode(script):
    return flat([len(script), script])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="design.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCDesign", "MCDesignDeep.cfg" if ctx.thorough else "MCDesign.cfg", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCDesign", "MCDesignBug.cfg", workers=1)
    scripts = ctx.gen("GenDesign", "GenDesign.cfg", num=3000 if ctx.thorough else 400, depth=14)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "DesignTrace", "Trace.cfg", scripts, encode, label="design/" + a, shards=5)
