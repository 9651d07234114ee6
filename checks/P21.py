"""NPY files: what is saved is what is loaded, damaged files are errors."""
from common import *


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    fut = ctx.bg(ctx.compile_many, [dict(harness="npy.cpp", arch=a, opt="-O0" if a == "sse2" else "-O1", asan=(a == "sse2")) for a in ["sse2", "avx2"]])
    m = ctx.bg(ctx.mc, "MCNpy", "MCNpyDeep.cfg" if ctx.thorough else "MCNpy.cfg", workers=4)
    mb = [ctx.bg(ctx.mc_bug, "MCNpy", c, workers=1) for c in ("MCNpyBugSkip.cfg", "MCNpyBugRead.cfg")]
    scripts = ctx.gen("GenNpy", "GenNpy.cfg", num=3000 if ctx.thorough else 300, depth=30)
    m.result(), [x.result() for x in mb]
    for a, exe in zip(["sse2", "avx2"], fut.result()):
        ctx.conform(exe, "NpyTrace", "Trace.cfg", scripts, encode, label="npy/" + a, shards=6)
