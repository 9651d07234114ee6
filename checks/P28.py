"""Windows, tone detectors, mixers, shapers, units, test signals."""
from common import *


def encode(script):
    return flat([len(script), script])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="window.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCWindow", "MCWindowDeep.cfg" if ctx.thorough else "MCWindow.cfg", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCWindow", "MCWindowBug.cfg", workers=1)
    scripts = ctx.gen("GenWindow", "GenWindow.cfg", num=4000 if ctx.thorough else 400, depth=18)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "WindowTrace", "Trace.cfg", scripts, encode, label="window/" + a, shards=5)
