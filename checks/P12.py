"""Tensor views: which cells they name, what writes do, when storage is released."""
from common import *


def encode(s):
    return flat([s["v"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="tensor.cpp", arch=a, asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCTensor", "MCTensorDeep.cfg" if ctx.thorough else "MCTensor.cfg", must_cover="all", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCTensor", "MCTensorBug.cfg", workers=1)
    scripts = ctx.gen("GenTensor", "GenTensor.cfg", num=6000 if ctx.thorough else 900, depth=24)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "TensorTrace", "Trace.cfg", scripts, encode, label="tensor/" + a, shards=4)
