"""Elementary functions of real and complex numbers, interpolation."""
from common import *


def encode(script):
    return flat([len(script), script])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="elem.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCElem", "MCElem.cfg", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCElem", "MCElemBug.cfg", workers=1)
    scripts = ctx.gen("GenElem", "GenElem.cfg", num=4000 if ctx.thorough else 400, depth=28)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "ElemTrace", "Trace.cfg", scripts, encode, label="elem/" + a, shards=5)
