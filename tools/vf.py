"""Shared machinery of the checks: compile harnesses from /repo's working tree, drive TLC
(exhaustive runs, behaviour generation, trace validation), and report.

A check is a module checks/<ID>.py with run(ctx).  Outcomes: exit 0 (held), exit 1 with a
VIOLATION line, exit 2 (machinery error; never on a healthy tree)."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "clang++"
NCPU = os.cpu_count() or 4

ARCH = {
    "sse2": ["-mno-sse3", "-mno-ssse3", "-mno-sse4.1", "-mno-avx"],
    "sse41": ["-msse4.1", "-mno-avx"],
    "avx": ["-mavx"],
    "avx2": ["-mavx2", "-mfma"],
    "avx512": ["-mavx2", "-mfma", "-mavx512f", "-mavx512cd", "-mavx512bw", "-mavx512dq", "-mavx512vl"],
}


class Violation(Exception):
    def __init__(self, what, replay_obj):
        super().__init__(what)
        self.what = what
        self.replay = replay_obj


class MachineryError(Exception):
    pass


def cpu_has(arch):
    try:
        flags = open("/proc/cpuinfo").read().split("flags", 1)[1].split("\n", 1)[0].split()
    except Exception:
        return arch == "sse2"
    need = {"sse2": [], "sse41": ["sse4_1"], "avx": ["avx"], "avx2": ["avx2", "fma"],
            "avx512": ["avx2", "fma", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl"]}[arch]
    return all(f in flags for f in need)


LIBS = {
    "fir": ["src/dsp/fir.cpp"],
    "biquad": ["src/dsp/biquad.cpp"],
    "src": ["src/dsp/sample_rate_conversion.cpp"],
    "dsp": ["src/dsp/biquad.cpp", "src/dsp/fir.cpp", "src/dsp/sample_rate_conversion.cpp"],
    "dft32": ["src/dft/dft-impl-f32.cpp", "src/dft/fft-impl-f32.cpp"],
    "dft64": ["src/dft/dft-impl-f64.cpp", "src/dft/fft-impl-f64.cpp"],
    "dft": ["src/dft/dft.cpp", "src/dft/convolution-impl.cpp", "src/dft/dft-impl-f32.cpp",
            "src/dft/fft-impl-f32.cpp", "src/dft/dft-impl-f64.cpp", "src/dft/fft-impl-f64.cpp"],
    "io": ["src/io/audiofile-impl.cpp"],
    "capi": ["src/capi/capi.cpp"],
}


def tail_of(text):
    """The explanations a trace specification printed, which TLC may break into lines."""
    out, on = [], False
    for x in text.splitlines():
        if '"EXPECT"' in x:
            on = True
        if on or '"REJECTED"' in x:
            out.append(x)
        if ">>" in x and x.rstrip().endswith((">>", "FALSE")):
            on = False
    return out[-16:]


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir="/tmp")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known_hit = []
        self.lock = threading.Lock()
        self.level = "model_checking"
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.nfile = 0

    # ---- bookkeeping -------------------------------------------------------------------------
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def fresh(self, suffix):
        with self.lock:
            self.nfile += 1
            return os.path.join(self.tmp, "f%d%s" % (self.nfile, suffix))

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def bg(self, fn, *a, **k):
        """Run something in the background; .result() to wait."""
        if not hasattr(self, "pool"):
            self.pool = cf.ThreadPoolExecutor(8)
        return self.pool.submit(fn, *a, **k)

    # ---- compilation -------------------------------------------------------------------------
    def compile(self, harness, arch="avx2", libs=(), opt="-O1", asan=False, defs=(), extra=(), name=None,
                lib_opt=None, link=()):
        """Compile /verif/harness/<harness> with the needed /repo sources; returns the executable."""
        return self.compile_many([dict(harness=harness, arch=arch, libs=libs, opt=opt, asan=asan, defs=defs,
                                       extra=extra, lib_opt=lib_opt, link=link)])[0]

    def compile_many(self, specs):
        jobs, exes = {}, []
        inc = ["-I" + REPO + "/include", "-I" + REPO + "/src/dft", "-I" + REPO + "/src/io", "-I" + VERIF + "/harness",
               "-I" + REPO + "/include/kfr"]
        for s in specs:
            flags = ["-std=gnu++17", "-w", "-Wno-psabi", "-fPIC"] + ARCH[s.get("arch", "avx2")] + inc
            if s.get("asan"):
                flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
            flags += list(s.get("extra", ()))
            objs = []
            srcs = [(os.path.join(VERIF, "harness", s["harness"]), s.get("opt", "-O1"), ["-D" + d for d in s.get("defs", ())])]
            for a in s.get("multi", ()): # the libraries once for each instruction set, as add_kfr_library does
                md = ["-DCMT_MULTI=1"] + ["-DCMT_MULTI_ENABLED_%s=1" % x.upper() for x in s["multi"]]
                md += ["-DCMT_BASE_ARCH=1"] if a == s["multi"][0] else []
                mflags = [x for x in flags if x not in ARCH[s.get("arch", "avx2")]] + ARCH[a] + ["-finstrument-functions-after-inlining"] + md
                for lib in s.get("libs", ()):
                    for f in LIBS[lib]:
                        key = (os.path.join(REPO, f), s.get("lib_opt") or s.get("opt", "-O1"), ("-ffp-contract=fast",) if "/dft/" in f else (), tuple(mflags), a)
                        if key not in jobs:
                            jobs[key] = self.fresh(".o")
                        objs.append(jobs[key])
            for lib in () if s.get("multi") else s.get("libs", ()):
                for f in LIBS[lib]:
                    srcs.append((os.path.join(REPO, f), s.get("lib_opt") or s.get("opt", "-O1"),
                                 ["-ffp-contract=fast"] if "/dft/" in f else []))
            for src, opt, d in srcs:
                key = (src, opt, tuple(d), tuple(flags))
                if key not in jobs:
                    jobs[key] = self.fresh(".o")
                objs.append(jobs[key])
            exes.append((self.fresh(".exe"), objs, s))

        def one(item):
            (src, opt, d, flags), out = item[0][:4], item[1]
            cmd = [CXX] + list(flags) + [opt] + list(d) + ["-c", src, "-o", out]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode != 0:
                raise MachineryError("compile failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
            if len(item[0]) > 4: # each instruction set reports to a function of its own
                subprocess.run(["objcopy"] + ["--redefine-sym=__cyg_profile_func_%s=entered_%s" % (x, item[0][4]) for x in ("enter",)]
                               + ["--redefine-sym=__cyg_profile_func_exit=left_code", out], check=True)

        # longest first
        order = sorted(jobs.items(), key=lambda kv: -sum(kv[0][0].count(x) for x in ("dft-impl", "fft-impl", "biquad", "capi", "/verif/")))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, order))
        outs = []
        for exe, objs, s in exes:
            cmd = [CXX] + objs + ["-o", exe, "-lpthread", "-lm"] + list(s.get("link", ()))
            if s.get("asan"):
                cmd.append("-fsanitize=address")
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode != 0:
                raise MachineryError("link failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
            outs.append(exe)
        self.log("compiled %d objects, %d executables" % (len(jobs), len(outs)))
        return outs

    # ---- running the implementation ----------------------------------------------------------
    def run(self, exe, args=(), stdin="", timeout=240, cwd=None, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_container_overflow=0"
        if env:
            e.update(env)
        p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, cwd=cwd or self.tmp, env=e, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
        return rc, out, err

    # ---- TLC ---------------------------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, workers=1, timeout=600, heap="3g", specdir=SPEC):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.TLC.stopAfter=100000",
               "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
        cmd += ["-config", os.path.join(specdir, cfg)] + list(args) + [os.path.join(specdir, module + ".tla")]
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=self.tmp,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(meta, ignore_errors=True)
        return dict(rc=p.returncode, out=out, generated=gen, distinct=dist)

    def mc(self, module, cfg, workers=4, timeout=600, args=(), heap="6g", env=None, must_cover=()):
        """Exhaustive model checking of the specification itself (all invariants of cfg)."""
        r = self.tlc(module, cfg, args=["-coverage", "1"] + list(args), workers=workers, timeout=timeout, heap=heap, env=env)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise MachineryError("the specification %s/%s itself fails:\n%s" % (module, cfg, r["out"][-3000:]))
        # vacuity: each action of the next-state relation has to have been taken
        zero = []
        for name, a, b in re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", r["out"]):
            if int(b) == 0 and name not in ("Init",):
                zero.append(name)
        bad = [n for n in zero if n in must_cover or must_cover == "all"]
        if bad:
            raise MachineryError("vacuous model %s/%s: never taken: %s" % (module, cfg, bad))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.cov.setdefault("models", []).append(
                dict(spec=module, config=cfg, distinct_states=r["distinct"], generated=r["generated"]))
        self.log("model %s/%s: %d distinct states, %d transitions" % (module, cfg, r["distinct"], r["generated"]))
        return r

    def mc_bug(self, module, cfg, workers=4, timeout=600):
        """A deliberately broken variant of the model has to violate its invariants (the invariants are not vacuous)."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap="6g")
        if not re.search(r"Invariant \w+ is violated", r["out"]):
            raise MachineryError("the broken model %s/%s is not rejected:\n%s" % (module, cfg, r["out"][-2000:]))
        with self.lock:
            self.cov.setdefault("broken_models_rejected", []).append(dict(spec=module, config=cfg))
        self.log("broken model %s/%s is rejected, as it has to be" % (module, cfg))

    def gen(self, module, cfg, num=100, depth=30, simulate=True, env=None, timeout=300, seed=None, tag="SCRIPT", workers=1):
        """Behaviours generated by TLC from the specification: each behaviour prints one line
        <<"SCRIPT", json>>; returns the decoded scripts, de-duplicated, in order."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        r = self.tlc(module, cfg, args=args, env=env, workers=workers, timeout=timeout)
        if r["rc"] != 0:
            raise MachineryError("behaviour generation %s/%s failed:\n%s" % (module, cfg, r["out"][-3000:]))
        out, seen = [], set()
        for line in r["out"].splitlines():
            m = re.match(r'^<<"%s", "(.*)">>\s*$' % tag, line)
            if not m:
                continue
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if s in seen:
                continue
            seen.add(s)
            out.append(json.loads(s))
        with self.lock:
            if not simulate:
                self.states += r["distinct"]
                self.transitions += r["generated"]
            self.cov.setdefault("generated_behaviours", []).append(dict(spec=module, config=cfg, behaviours=len(out)))
        if not out:
            raise MachineryError("no behaviours generated by %s/%s:\n%s" % (module, cfg, r["out"][-2000:]))
        self.log("generated %d behaviours from %s/%s" % (len(out), module, cfg))
        return out

    def tlc_validate(self, module, cfg, lines, env=None, timeout=600, heap="3g"):
        """Validate one ndjson trace. Returns None if accepted, else (index of first rejected line, tlc output)."""
        f = self.fresh(".ndjson")
        with open(f, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        e = dict(env or {})
        e["TRACE"] = f
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["generated"]
        os.unlink(f)
        if r["rc"] == 0 and "No error has been found" in r["out"]:
            return None
        m = re.search(r'"REJECTED", (\d+)', r["out"])
        if m:
            return int(m.group(1)), r["out"]
        m = re.search(r"Invariant (\w+) is violated", r["out"])
        if m:
            st = re.findall(r"/\\ l = (\d+)", r["out"])
            return (int(st[-1]) if st else len(lines)), r["out"]
        raise MachineryError("TLC failed on trace of %s/%s:\n%s" % (module, cfg, r["out"][-4000:]))

    def conform(self, exe, module, cfg, scripts, encode, label="", shards=None, env=None, args=(), timeout=240,
                tlc_timeout=700, heap="3g", run_env=None, cwd=None, known=None):
        """Drive the real code with the scripts (one trace segment per script, each segment opened by a
        record whose "ev" is "init"), validate every recorded step against the trace specification, and
        re-run a rejected script alone before it is reported.

        encode(script) -> text of the script for the harness."""
        shards = shards or NCPU
        n = len(scripts)
        if n == 0:
            return
        texts = [encode(s) for s in scripts]
        shards = max(1, min(shards, n))
        groups = [list(range(i, n, shards)) for i in range(shards)]

        def go(idx):
            return self._conform_group(exe, module, cfg, scripts, texts, idx, label, env, args, timeout, tlc_timeout,
                                       heap, run_env, cwd, known)

        with cf.ThreadPoolExecutor(shards) as ex:
            res = [f.result() for f in [ex.submit(go, g) for g in groups]]
        self.log("%s: %d behaviours replayed on the real code and validated (%s, %d steps)" %
                 (label or module, n, module, sum(res)))

    def _segments(self, out):
        segs = []
        for ln in out.splitlines():
            if not ln.startswith("{"):
                continue
            if '"ev":"init"' in ln:
                segs.append([])
            if segs:
                segs[-1].append(ln)
        return segs

    def _conform_group(self, exe, module, cfg, scripts, texts, idx, label, env, args, timeout, tlc_timeout, heap,
                       run_env, cwd, known):
        start = 0
        total = 0
        while start < len(idx):
            part = idx[start:]
            rc, out, err = self.run(exe, args=args, stdin="\n".join(texts[i] for i in part) + "\n", timeout=timeout,
                                    env=run_env, cwd=cwd)
            segs = self._segments(out)
            bad = None
            if rc != 0:
                bad = max(0, len(segs) - 1)  # the script being executed when it died
            segs_ok = segs if bad is None else segs[:bad]
            if rc == 0 and len(segs) != len(part):
                raise MachineryError("harness %s produced %d segments for %d scripts: %s" % (label, len(segs), len(part), err[-2000:]))
            lines = [l for s in segs_ok for l in s]
            rej = self.tlc_validate(module, cfg, lines, env=env, timeout=tlc_timeout, heap=heap) if lines else None
            why = None
            if rej:
                pos, tout = rej
                k, c = 0, 0
                while k < len(segs_ok) - 1 and c + len(segs_ok[k]) < pos:
                    c += len(segs_ok[k])
                    k += 1
                bad = k
                why = "step rejected by %s" % module
            elif bad is not None:
                why = "real code ended with %s: %s" % (rc, err.strip()[-600:])
            nval = len(part) if bad is None else bad
            with self.lock:
                self.traces += nval
                if nval and len(self.samples) < 6:
                    self.samples.append(dict(label=label or module, script=scripts[part[0]],
                                             trace_head=[t[:300] for t in segs[0][:3]]))
            total += len(lines)
            if bad is None:
                return total
            i = part[bad] if bad < len(part) else part[-1]
            # repeat alone
            rc2, out2, err2 = self.run(exe, args=args, stdin=texts[i] + "\n", timeout=timeout, env=run_env, cwd=cwd)
            s2 = self._segments(out2)
            l2 = [l for s in s2 for l in s]
            again, detail = False, None
            if l2:
                r2 = self.tlc_validate(module, cfg, l2, env=env, timeout=tlc_timeout, heap=heap)
                if r2:
                    again = True
                    p = r2[0]
                    st = re.findall(r"State \d+:.*?(?=\nState|\n\n|\Z)", r2[1], re.S)
                    detail = dict(rejected_step=p, step=l2[min(p, len(l2)) - 1][:4000], previous=[x[:600] for x in l2[max(0, p - 4):max(0, p - 1)]],
                                  tlc_tail=tail_of(r2[1]))
            if rc2 != 0:
                again = True
                detail = dict(detail or {}, exit=str(rc2), stderr=err2[-3000:])
            if not again:
                # Could not be repeated in isolation; repeat the whole group once more: state leaking between
                # segments of one process is also a real rejection if it repeats.
                rc3, out3, err3 = self.run(exe, args=args, stdin="\n".join(texts[j] for j in part) + "\n", timeout=timeout,
                                           env=run_env, cwd=cwd)
                s3 = self._segments(out3)
                if rc3 != 0 and rc != 0:
                    again, detail = True, dict(exit=str(rc3), stderr=err3[-3000:], note="whole group needed")
                elif rc3 == 0:
                    l3 = [l for s in s3 for l in s]
                    r3 = self.tlc_validate(module, cfg, l3, env=env, timeout=tlc_timeout, heap=heap)
                    if r3:
                        again, detail = True, dict(rejected_step=r3[0], step=l3[min(r3[0], len(l3)) - 1][:4000], note="whole group needed")
            if not again:
                self.log("a rejection did not repeat and is not reported: %s" % why)
                start += (bad + 1)
                continue
            raise Violation("%s: %s" % (label or module, why),
                            dict(label=label, module=module, config=cfg, why=why, script=scripts[i], input=texts[i],
                                 detail=detail, harness_args=[str(a) for a in args]))
        return total

    # ---- evidence ----------------------------------------------------------------------------
    def evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def main(pid):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    ctx = Ctx(pid)
    rc = 2

    def onterm(sig, frame):
        ctx.cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, onterm)
    try:
        mod = __import__(pid)
        mod.run(ctx)
        ctx.evidence(0)
        ctx.log("held: %d states, %d transitions, %d traces" % (ctx.states, ctx.transitions, ctx.traces))
        rc = 0
    except Violation as v:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, what=v.what, replay=v.replay), f, indent=1)
        ctx.evidence(1)
        print(json.dumps(dict(what=v.what, detail=(v.replay or {}).get("detail")), indent=1)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        rc = 1
    except MachineryError as m:
        print("MACHINERY ERROR in %s: %s" % (pid, m), file=sys.stderr, flush=True)
    except Exception:
        traceback.print_exc()
    finally:
        ctx.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main(sys.argv[1])
