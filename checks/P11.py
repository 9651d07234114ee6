"""Plans shared between threads and the cache: linearizable map, execution that never writes the plan."""
from common import *

WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=free"]


def encode(s):
    if "frozen" in s:
        return "Z " + flat([len(s["frozen"]), s["frozen"]])
    return "R " + flat([len(s["keys"]), s["keys"], len(s["threads"]), [[len(t), t] for t in s["threads"]]])


def frozen(ctx):
    sizes = list(range(1, 150)) + [202, 256, 303, 509, 512, 600, 1024, 1009, 2048, 4096, 5040, 8192, 10007]
    if ctx.thorough:
        sizes += list(range(150, 420)) + [16384, 32768]
    out = []
    for i in range(0, len(sizes), 20):
        ks = []
        for n in sizes[i:i + 20]:
            for pr in (0, 1):
                ks.append([0, pr, n])
                ks.append([1, pr, 2 * n])
        out.append(dict(frozen=ks))
    return out


def run(ctx):
    arches = arch_list(ctx)
    specs = [dict(harness="plans.cpp", arch=a, libs=["dft"], link=WRAP) for a in arches]
    specs.append(dict(harness="plans.cpp", arch="sse2", libs=["dft"], defs=["TSAN"], extra=["-fsanitize=thread", "-g1"],
                      link=["-fsanitize=thread"]))
    fut = ctx.bg(ctx.compile_many, specs)
    m = ctx.bg(ctx.mc, "MCPlans", "MCPlansDeep.cfg" if ctx.thorough else "MCPlans.cfg", must_cover="all", workers=2)
    mb = ctx.bg(ctx.mc_bug, "MCPlans", "MCPlansBug.cfg", workers=1)
    scripts = ctx.gen("GenPlans", "GenPlans.cfg", num=3000 if ctx.thorough else 400, depth=30)
    m.result(), mb.result()
    exes = fut.result()
    for a, exe in zip(arches, exes):
        ctx.conform(exe, "PlansTrace", "PlansTrace.cfg", frozen(ctx) + scripts, encode, label="plans/" + a, shards=4)
    ctx.conform(exes[-1], "PlansTrace", "PlansTrace.cfg", scripts[:1000 if ctx.thorough else 150], encode, label="plans/tsan", shards=3,
                run_env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}, timeout=600)
