"""Runtime dispatch."""
from common import *
import vf

NUM = dict(sse2=1, sse41=4, avx=6, avx2=7, avx512=8)


def run(ctx):
    sets = [["sse2", "sse41", "avx", "avx2", "avx512"]]
    if ctx.thorough:
        sets += [["sse2", "avx2"], ["sse41", "avx", "avx512"]]
    sets = [[a for a in s if vf.cpu_has(a)] for s in sets]
    top = max(NUM[a] for s in sets for a in s)
    fut = ctx.bg(ctx.compile_many, [dict(harness="dispatch.cpp", arch=s[0], multi=s, libs=["dsp", "dft"], opt="-O1",
                                         defs=["ENABLED=" + ",".join(str(NUM[a]) for a in s)]) for s in sets])
    m = ctx.bg(ctx.mc, "MCDispatch", "MCDispatch.cfg", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCDispatch", "MCDispatchBug.cfg", workers=1)
    scripts = ctx.gen("GenDispatch", "GenDispatch.cfg", num=4000 if ctx.thorough else 500, depth=35)
    m.result(), mb.result()
    for s, exe in zip(sets, fut.result()):
        def encode(script):
            ops = [["sel", max(NUM[s[0]], min(x[1], top))] if x[0] == "sel" else x for x in script]
            return flat([len(ops), ops])
        ctx.conform(exe, "DispatchTrace", "Trace.cfg", scripts, encode, label="dispatch/" + "+".join(s), shards=8)
