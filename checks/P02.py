"""Partitioned FFT convolution and one-shot convolution/correlation."""
from common import *
from P01 import encode


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="fir.cpp", arch=a, libs=["fir", "dft"], opt="-O1", asan=False,
                                         defs=["WITH_CONV", "ONLY_CONV"]) for a in arches])
    ctx.mc("MCConv", "MCConv.cfg", must_cover="all")
    ctx.mc("MCFir", "MCFir.cfg", must_cover="all")
    scripts = ctx.gen("GenFir", "GenConv.cfg", num=3000 if ctx.thorough else 500, depth=40)
    pairs = ctx.gen("GenOneShot", "GenOneShot.cfg", simulate=False)
    for q in range(400 if ctx.thorough else 60):
        pairs.append(dict(v=20 + q % 4, a=ctx.rng.randint(1, 300), b=ctx.rng.randint(1, 200), k=q % 3, seed=q + 1))
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "FirTrace", "Trace.cfg", scripts, encode, label="convolve_filter/" + a)
        ctx.conform(exe, "FirTrace", "Trace.cfg", pairs, lambda s: flat(["X", s["v"], s["a"], s["b"], s["k"], s["seed"]]), label="one-shot/" + a)
