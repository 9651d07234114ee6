"""Shape algebra: storage order, walks, broadcasting rules, and evaluation of broadcast expressions."""
from common import *


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="shape.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCShape", "MCShapeDeep.cfg" if ctx.thorough else "MCShape.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCShape", "MCShapeBug.cfg", workers=1)
    g = ctx.bg(ctx.gen, "GenShape", "GenShapeEx.cfg", simulate=False)
    scripts = ctx.gen("GenShape", "GenShape.cfg", num=6000 if ctx.thorough else 800, depth=16)
    m.result(), mb.result()
    scripts = g.result() + scripts
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "ShapeTrace", "Trace.cfg", scripts, encode, label="shape/" + a, shards=4)
