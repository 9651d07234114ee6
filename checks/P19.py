"""The C interface: histories over all kinds of objects, valid and invalid arguments, memory running out."""
from common import *


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    libs = ["capi", "dft", "dsp"]
    link = ["-Wl,--wrap=malloc,--wrap=free", "-pthread"]
    fut = ctx.bg(ctx.compile_many, [dict(harness="capi.cpp", arch="sse2", opt="-O1", asan=True, link=link, libs=libs),
                                    dict(harness="capi.cpp", arch="avx2", opt="-O1", link=link, libs=libs),
                                    dict(harness="mem.cpp", arch="avx2", opt="-O1", defs=["CAPI"], link=link, libs=libs)])
    m = ctx.bg(ctx.mc, "MCCapi", "MCCapiDeep.cfg" if ctx.thorough else "MCCapi.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCCapi", "MCCapiBug.cfg", workers=1)
    scripts = ctx.gen("GenCapi", "GenCapi.cfg", num=2500 if ctx.thorough else 250, depth=45)
    mem = ctx.gen("GenMem", "GenMem.cfg", num=1000 if ctx.thorough else 100, depth=45)
    m.result(), mb.result()
    exes = fut.result()
    for a, exe in zip(["sse2", "avx2"], exes):
        ctx.conform(exe, "CapiTrace", "Trace.cfg", scripts, encode, label="capi/" + a, shards=6,
                    run_env={"ASAN_OPTIONS": "allocator_may_return_null=1"})
    ctx.conform(exes[2], "MemTrace", "Trace.cfg", mem, encode, label="capi/memory", shards=6)
