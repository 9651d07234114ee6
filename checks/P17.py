"""Random generators: exact streams, independence and ranges."""
from common import *


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="random.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCRandom", "MCRandomDeep.cfg" if ctx.thorough else "MCRandom.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCRandom", "MCRandomBug.cfg", workers=1)
    scripts = ctx.gen("GenRandom", "GenRandom.cfg", num=3000 if ctx.thorough else 400, depth=28)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "RandomTrace", "RandomTrace.cfg", scripts, encode, label="random/" + a, shards=5)
