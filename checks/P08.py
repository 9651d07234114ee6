"""Complex DFT plans: exact transform rules over histories of one plan, every impulse of every small length."""
from common import *


def encode(s):
    if "disp" in s:
        return flat([9, s["disp"]])
    return flat([s["v"], s["k"], s["f"], len(s["shape"]), s["shape"], len(s["ops"]), s["ops"]])


# one length per stage structure (number of stages, first / last radix, equal or distinct middle radices, generic tail)
CLASSES = [588, 924, 1155, 1792, 2464, 1875, 3675, 4116, 5775, 6468, 6125, 9625, 4125, 9375, 12544, 15625]


def big(ctx):
    """Long transforms: a few impulses and a forward/inverse round trip."""
    out = []
    sizes = [2048, 4096, 8192, 3000, 5040, 6561, 10007] + CLASSES
    sizes = sorted(set(sizes))
    if ctx.thorough:
        sizes += [28812, 16384, 32768, 9973, 12345, 20000, 30030, 29282, 7919 * 2]
    for n in sizes:
        for v in (0, 1):
            r = ctx.rng
            out.append(dict(v=v, k="c", f=0, shape=[n], ops=[
                ["I", 0, r.randrange(n), r.randrange(4), 0, 0, r.randrange(4)], ["I", 1, r.randrange(n), r.randrange(4), 1, 1, r.randrange(4)],
                ["L", 1, "t", r.randrange(10**6)], ["X", 0, 2, 1, 0, 0, "f", 0], ["X", 1, 3, 2, 0, 1, "t", 1], ["X", 0, 2, 2, 2, 0, "t", 1]]))
    return out


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="dft.cpp", arch=a, libs=["dft"], defs=["PART=0"], asan=False) for a in arches])
    m = ctx.bg(ctx.mc, "MCDft", "MCDftDeep.cfg" if ctx.thorough else "MCDft.cfg", must_cover="all", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCDft", "MCDftBug.cfg", workers=1)
    g1 = ctx.bg(ctx.gen, "GenDft", "GenDft.cfg", num=3000 if ctx.thorough else 500, depth=20)
    sweep = ctx.gen("GenDftSweep", "GenDftSweep.cfg", simulate=False)
    scripts = big(ctx) + g1.result() + sweep + [dict(disp=12 if ctx.thorough else 9)]
    if ctx.thorough:
        scripts += ctx.gen("GenDftSweep", "GenDftSweepDeep.cfg", simulate=False)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "DftTrace", "Trace.cfg", scripts, encode, label="dft/" + a)
