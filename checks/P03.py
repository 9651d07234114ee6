"""IIR cascades: difference equations, whatever the block split."""
from common import *


def encode(s):
    return flat([s["v"], len(s["sec"]), s["sec"], s["seed"], s["p"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="iir.cpp", arch=a, libs=["biquad"], asan=(a == "sse2"), opt="-O1" if a != "sse2" else "-O0") for a in arches])
    ctx.mc("MCIir", "MCIir.cfg", must_cover="all")
    scripts = ctx.gen("GenIir", "GenIir.cfg", num=4000 if ctx.thorough else 600, depth=40)
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "IirTrace", "Trace.cfg", scripts, encode, label="iir/" + a)
