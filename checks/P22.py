"""Sample conversion and interleaving."""
from common import *


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="convert.cpp", arch=a, opt="-O2", asan=(a == "sse2" and ctx.thorough)) for a in arches])
    m = ctx.bg(ctx.mc, "MCConvert", "MCConvertDeep.cfg" if ctx.thorough else "MCConvert.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCConvert", "MCConvertBug.cfg", workers=1)
    scripts = ctx.gen("GenConvert", "GenConvert.cfg", num=3000 if ctx.thorough else 300, depth=16)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "ConvertTrace", "Trace.cfg", scripts, encode, label="convert/" + a, shards=5)
