"""Delay lines, moving sums, short FIRs, fractional delay, DC removal and generators: exact sample history."""
from common import *

PARTS = {0: [0, 1], 1: [2, 3], 2: [4, 5, 6, 7, 8], 3: [9, 10, 11, 12, 13], 4: [14, 15, 16]}


def encode(s):
    return flat([s["v"], s["k"], s["seed"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    jobs = [(a, k) for a in arches for k in PARTS]
    fut = ctx.bg(ctx.compile_many, [dict(harness="ops.cpp", arch=a, asan=(a == "sse2"), opt="-O0",
                                         defs=["PART=%d" % k] + (["NDEBUG"] if a != "sse2" else [])) for a, k in jobs])
    scripts = ctx.gen("GenOps", "GenOps.cfg", num=8000 if ctx.thorough else 1500, depth=20)
    exes = fut.result()
    m = ctx.bg(ctx.mc, "MCOps", "MCOps.cfg", must_cover="all", workers=2)
    conform_parts(ctx, [(exe, a, PARTS[k]) for (a, k), exe in zip(jobs, exes)], "OpsTrace", scripts, encode, "ops")
    m.result()
