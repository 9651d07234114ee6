"""Reductions and histograms: every element counted once, however it is delivered."""
from common import *

PARTS = dict(PART_REAL=("f32", "f64"), PART_NARROW=("u8", "i8", "i16"), PART_WIDE=("i32", "i64"))


def encode(s):
    return flat([s["v"], len(s["ops"]), s["ops"]])


def run(ctx):
    jobs = [(a, p) for a in arch_list(ctx) for p in PARTS]
    fut = ctx.bg(ctx.compile_many, [dict(harness="reduce.cpp", arch=a, opt="-O1", asan=(a == "sse2"), defs=(p,)) for a, p in jobs])
    ms = [ctx.bg(ctx.mc, "MCReduce", c, workers=2) for c in ("MCReduce.cfg", "MCReduceLong.cfg")]
    ms += [ctx.bg(ctx.mc_bug, "MCReduce", c, workers=1) for c in ("MCReduceBugLane.cfg", "MCReduceBugBin.cfg")]
    scripts = ctx.gen("GenReduce", "GenReduce.cfg", num=6000 if ctx.thorough else 900, depth=16)
    for m in ms:
        m.result()
    conform_parts(ctx, [(exe, "%s/%s" % (a, p), PARTS[p]) for (a, p), exe in zip(jobs, fut.result())], "ReduceTrace", scripts, encode, "reduce")
