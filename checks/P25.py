"""Small containers and fractions."""
from common import *


def encode(s):
    return flat([s["t"], len(s["ops"]), s["ops"]])


def run(ctx):
    link = ["-Wl,--wrap=malloc,--wrap=free"]
    fut = ctx.bg(ctx.compile_many, [dict(harness="small.cpp", arch="sse2", opt="-O1", asan=True, link=link),
                                    dict(harness="small.cpp", arch="avx2", opt="-O2", link=link)])
    m = ctx.bg(ctx.mc, "MCSmall", "MCSmallDeep.cfg" if ctx.thorough else "MCSmall.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCSmall", "MCSmallBug.cfg", workers=1)
    scripts = ctx.gen("GenSmall", "GenSmall.cfg", num=6000 if ctx.thorough else 600, depth=45)
    scripts += ctx.gen("GenFrac", "GenFrac.cfg", num=1000 if ctx.thorough else 100, depth=45)
    m.result(), mb.result()
    for a, exe in zip(["sse2", "avx2"], fut.result()):
        ctx.conform(exe, "SmallTrace", "Trace.cfg", scripts, encode, label="small/" + a, shards=6)
