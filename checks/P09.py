"""Real transforms in both packings and the cosine transform: exact rules over plan histories, every impulse."""
from common import *
from P08 import encode


def big(ctx):
    out = []
    for n in [2048, 4096, 6000, 16384, 2 * 1009] + ([32768, 2 * 4999, 24000] if ctx.thorough else []):
        for v in (0, 1):
            for f in (0, 1):
                r = ctx.rng
                out.append(dict(v=v, k="r", f=f, shape=[n], ops=[
                    ["I", 0, r.randrange(n), 0, 0, 0, r.randrange(4)], ["I", 0, r.randrange(n), 0, 1, 1, r.randrange(4)],
                    ["L", 1, "t", r.randrange(10**6)], ["X", 0, 2, 1, 0, 0, "f", 0], ["X", 1, 3, 2, 0, 1, "t", 1], ["X", 1, 2, 2, 2, 0, "t", 1]]))
    return out


def enc_dct(s):
    return flat([s["v"], s["N"], len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness=h, arch=a, libs=["dft"], defs=["PART=0"]) for a in arches for h in ("dft.cpp", "dct.cpp")])
    m = ctx.bg(ctx.mc, "MCDct", "MCDct.cfg", must_cover="all", workers=2)
    g1 = ctx.bg(ctx.gen, "GenDft", "GenDftReal.cfg", num=3000 if ctx.thorough else 500, depth=20)
    g2 = ctx.bg(ctx.gen, "GenDct", "GenDct.cfg", num=2000 if ctx.thorough else 400, depth=20)
    scripts = big(ctx) + g1.result() + ctx.gen("GenDftSweep", "GenDftSweepReal.cfg", simulate=False)
    if ctx.thorough:
        scripts += ctx.gen("GenDftSweep", "GenDftSweepRealDeep.cfg", simulate=False)
    dct = g2.result() + [dict(v=v, N=n, ops=[["A", 0, 0], ["A", 1, 0]]) for v in (0, 1) for n in range(1, 130 if ctx.thorough else 50)]
    m.result()
    exes = fut.result()
    for k, a in enumerate(arches):
        j = ctx.bg(ctx.conform, exes[2 * k + 1], "DctTrace", "Trace.cfg", dct, enc_dct, label="dct/" + a, shards=3)
        ctx.conform(exes[2 * k], "DftTrace", "Trace.cfg", scripts, encode, label="real/" + a, shards=5)
        j.result()
