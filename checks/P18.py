"""Aligned memory blocks: alignment, separation, references, bookkeeping."""
from common import *


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    link = ["-Wl,--wrap=malloc,--wrap=free", "-pthread"]
    fut = ctx.bg(ctx.compile_many, [dict(harness="mem.cpp", arch="sse2", opt="-O1", asan=True, link=link),
                                    dict(harness="mem.cpp", arch="avx2", opt="-O2", link=link)])
    m = ctx.bg(ctx.mc, "MCMem", "MCMemDeep.cfg" if ctx.thorough else "MCMem.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCMem", "MCMemBug.cfg", workers=1)
    scripts = ctx.gen("GenMem", "GenMem.cfg", num=3000 if ctx.thorough else 300, depth=45)
    m.result(), mb.result()
    for a, exe in zip(["sse2", "avx2"], fut.result()):
        ctx.conform(exe, "MemTrace", "Trace.cfg", scripts, encode, label="memory/" + a, shards=6)
