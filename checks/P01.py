"""FIR filters: output = convolution of everything fed, whatever the block split."""


from common import *


def encode(s):
    return flat([s["v"], len(s["taps"]), s["taps"], s["seed"], s["p"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="fir.cpp", arch=a, libs=["fir"], asan=(a == "sse2"), opt="-O0" if a == "sse2" else "-O1") for a in arches])
    ctx.mc("MCFir", "MCFir.cfg", must_cover="all")
    scripts = ctx.gen("GenFir", "GenFir.cfg", num=2400 if ctx.thorough else 400, depth=40)
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "FirTrace", "Trace.cfg", scripts, encode, label="fir/" + a)
