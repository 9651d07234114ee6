"""WAV (and FLAC, MP3) files: histories of writes, abnormal endings, reads and seeks."""
from common import *
from vf import REPO


def encode(s):
    return flat([len(s["ops"]), s["ops"]])


def run(ctx):
    arches = arch_list(ctx)
    fut = ctx.bg(ctx.compile_many, [dict(harness="wav.cpp", arch=a, libs=["io"], opt="-O1", asan=(a == "sse2"),
                                         extra=['-DKFR_SRC_DIR="%s"' % REPO]) for a in arches])
    m = ctx.bg(ctx.mc, "MCWav", "MCWavDeep.cfg" if ctx.thorough else "MCWav.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCWav", "MCWavBug.cfg", workers=1)
    scripts = ctx.gen("GenWav", "GenWav.cfg", num=3000 if ctx.thorough else 800, depth=26)
    m.result(), mb.result()
    for a, exe in zip(arches, fut.result()):
        ctx.conform(exe, "WavTrace", "Trace.cfg", scripts, encode, label="wav/" + a, shards=5)
