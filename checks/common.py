import os
from vf import cpu_has


def flat(x):
    if isinstance(x, (list, tuple)):
        return " ".join(flat(y) for y in x)
    if isinstance(x, bool):
        return "1" if x else "0"
    return str(x)


def arch_list(ctx, base=("sse2", "avx2"), extra=("avx512",)):
    r = [a for a in base if cpu_has(a)]
    if ctx.thorough:
        r += [a for a in extra if cpu_has(a)]
    return r


def conform_parts(ctx, jobs, module, scripts, encode, label, cfg="Trace.cfg", key="v", shards=2, **kw):
    """jobs: (exe, arch, variants handled by this executable); run in parallel."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(ctx.conform, exe, module, cfg, [s for s in scripts if s[key] in vs], encode,
                        label="%s/%s" % (label, a), shards=shards, **kw) for exe, a, vs in jobs]
        err = None
        for f in fs:
            try:
                f.result()
            except Exception as e:
                print("    ", str(e)[:200], flush=True)
                if os.environ.get("VF_VERBOSE") and hasattr(e, "replay"):
                    d = e.replay.get("detail") or {}
                    print("       ", str(d.get("step"))[:400], "\n       ", " ".join("".join(map(str, d.get("tlc_tail") or [])).split())[:500], flush=True)
                err = err or e
        if err:
            raise err
