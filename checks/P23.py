"""Loudness metering."""
from common import *

FREQ = [20, 40, 50, 60, 100, 200, 500, 1000, 2000, 4000, 8000, 10000, 16000]


def encode(s):
    if s["k"] == "t":
        return flat(["t", s["t"], 48000, s["factor"], 350, 1, s["sp"], s["f"], s["db"]])
    return flat([s["k"], s["t"], s["rate"], s["factor"], s["gate"], len(s["sp"]), s["sp"], len(s["ops"]), s["ops"]])


def tones():
    out = []
    for i, f in enumerate(FREQ):
        for t in ["f32", "f64"]:
            out.append(dict(k="t", t=t, factor=1 + i % 6, sp=[1, 2, 3][i % 3], f=f, db=[0, -20, -37][(i + (t == "f64")) % 3]))
    for sp in range(-1, 20):
        out.append(dict(k="t", t="f64", factor=1, sp=sp, f=1000, db=-23))
    return out


def run(ctx):
    archs = [("sse2", True), ("avx2", False), ("avx512", False)] if ctx.thorough else [("sse2", True), ("avx2", False)]
    fut = ctx.bg(ctx.compile_many, [dict(harness="loud.cpp", arch=a, opt="-O1" if asan else "-O2", asan=asan) for a, asan in archs])
    m = ctx.bg(ctx.mc, "MCLoud", "MCLoudDeep.cfg" if ctx.thorough else "MCLoud.cfg", workers=4)
    mb = ctx.bg(ctx.mc_bug, "MCLoud", "MCLoudBug.cfg", workers=1)
    scripts = ctx.gen("GenLoud", "GenLoud.cfg", num=800 if ctx.thorough else 400, depth=30)
    m.result(), mb.result()
    for (a, _), exe in zip(archs, fut.result()):
        ctx.conform(exe, "LoudTrace", "Trace.cfg", scripts + tones(), encode, label="loudness/" + a, shards=6)
