"""The lock-free ring buffer: FIFO, bounded, race free, under every interleaving."""
from common import *


def encode(s):
    return flat([s["v"], s["cap"], s["stale"], len(s["a"]), s["a"], len(s["b"]), s["b"], len(s["sched"]), s["sched"]])


def run(ctx):
    fut = ctx.bg(ctx.compile_many, [dict(harness="lockfree.cpp", arch="sse2", asan=True, opt="-O0"),
                                    dict(harness="lockfree.cpp", arch="avx2", opt="-O2")])
    m = [ctx.bg(ctx.mc, "MCLockFree", "MCLockFreeDeep.cfg" if ctx.thorough else "MCLockFree.cfg", must_cover="all", timeout=3000),
         ctx.bg(ctx.mc_bug, "MCLockFree", "MCLockFreeBug.cfg")]
    ex = ctx.gen("GenLockFree", "GenLockFreeEx.cfg", simulate=False)
    rnd = ctx.gen("GenLockFree", "GenLockFree.cfg", num=20000 if ctx.thorough else 2000, depth=5)
    for x in m:
        x.result()
    exes = fut.result()
    ctx.conform(exes[0], "LockFreeTrace", "Trace.cfg", rnd[::2] + ex[::4], encode, label="lockfree/asan")
    ctx.conform(exes[1], "LockFreeTrace", "Trace.cfg", ex + rnd, encode, label="lockfree/O2")
