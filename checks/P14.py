"""Expression trees: shape, values and destination range for every width, axis, chunk and way of holding operands."""
from common import *


def tree(t):
    k = t["k"]
    L = lambda x: [len(x), x]
    kids = [tree(t[c]) for c in "abc" if isinstance(t.get(c), dict)]
    return [k, {"ten": lambda: [t.get("m", 0), L(t["s"]), L(t["d"])], "sc": lambda: [t["v"]], "cnt": lambda: [t["v"], L(t["st"])],
                "lam": lambda: [t["v"], L(t["st"])], "seq": lambda: L(t["d"]),
                "lin": lambda: [t["v"], t["w"], t["n"], t["e"], t["t"]], "slice": lambda: [L(t["st"]), L(t["n"])],
                "pad": lambda: [t["v"]], "resh": lambda: L(t["s"]), "cat": lambda: [t["ax"]], "f1": lambda: [t["op"]],
                "f2": lambda: [t["op"], t.get("m", 0)], "f3": lambda: [t["op"]]}.get(k, lambda: [])(), kids]


def encode(s):
    L = lambda x: [len(x), x]
    r = [len(s["ops"])]
    for o in s["ops"]:
        r += [o["e"], tree(o["t"])]
        if o["e"] == "E":
            r += [o["w"], o["ax"], o["dk"], o["mis"], L(o["d"]), L(o["st"]), L(o["n"])]
        elif o["e"] == "G":
            r += [o["w"], o["ax"], L(o["ix"])]
        else:
            r += [tree(o["u"]), o["w"], o["n"]]
    return flat(r)


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="expr.cpp", arch=a, opt="-O1", asan=(a == "sse2")) for a in arches])
    m = ctx.bg(ctx.mc, "MCExpr", "MCExprDeep.cfg" if ctx.thorough else "MCExpr.cfg", workers=3)
    bugs = [ctx.bg(ctx.mc_bug, "MCExpr", "MCExprBug%s.cfg" % b, workers=1) for b in ("Rev", "Bcast", "Pad", "One")]
    ex = ctx.bg(ctx.gen, "GenExprEx", "GenExprEx.cfg", simulate=False)
    scripts = ctx.gen("GenExpr", "GenExpr.cfg", num=6000 if ctx.thorough else 700, depth=40)
    m.result()
    scripts = ex.result() + scripts
    for b in bugs:
        b.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "ExprTrace", "Trace.cfg", scripts, encode, label="expr/" + a, shards=4)
