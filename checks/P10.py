"""Multidimensional transforms: the same exact rules, over shapes with axes of every sort."""
from common import *
from P08 import encode


def sweep(ctx):
    """Every impulse of small shapes, static and dynamic plans."""
    r = ctx.rng
    out = []
    shapes = [[1, 1], [1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [3, 3], [1, 4], [4, 1], [1, 1, 2], [2, 1, 2], [1, 3, 2], [3, 1, 4], [2, 3, 4],
              [4, 2, 3], [5, 1], [7, 2], [2, 2, 2, 2], [1, 2, 1, 3], [3, 2, 1, 2], [2, 1, 3, 1, 2], [1, 1, 1, 1, 2], [4, 4], [8, 8], [16, 2], [2, 16], [6, 10], [1], [6]]
    for s in shapes:
        for v in (0, 1):
            f = r.randrange(2)
            out.append(dict(v=v, k="c", f=f, shape=s, ops=[["A", 0, 0, 0], ["A", 1, 2, 1], ["A", 0, 3, 1]]))
            if s[-1] % 2 == 0:
                f = r.randrange(4)
                out.append(dict(v=v, k="r", f=f, shape=s, ops=[["A", 0, 0, 0], ["A", 0, 2, 1], ["A", 0, 1, 0]]))
    return out


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="dft.cpp", arch=a, libs=["dft"], defs=["PART=1"], opt="-O0", lib_opt="-O1") for a in arches])
    m = ctx.bg(ctx.mc, "MCDft", "MCDftDeep.cfg" if ctx.thorough else "MCDft.cfg", must_cover="all", workers=2)
    g1 = ctx.bg(ctx.gen, "GenDft", "GenDftMd.cfg", num=4000 if ctx.thorough else 900, depth=20)
    scripts = sweep(ctx) + g1.result()
    m.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "DftTrace", "Trace.cfg", scripts, encode, label="md/" + a)
