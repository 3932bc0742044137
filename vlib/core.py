"""Common machinery of the checks: building the library from the working tree,
running TLC, executing scripts in the harness, validating traces, evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

WRAPS_KERN = ["connect", "clock_gettime", "timerfd_create", "timerfd_settime",
              "epoll_wait", "epoll_pwait", "malloc", "calloc", "realloc", "free", "mmap", "munmap"]


class CheckError(Exception):
    """The check itself could not do its work (exit code 2)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay


def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=env,
                           cwd=cwd, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise CheckError("timeout: %s" % " ".join(map(str, cmd))) from e
    return p.returncode, p.stdout


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.quick = self.tier != "thorough"
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.libs = {}
        self.nlibs = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.models = []
        self.known = []

    # ------------------------------------------------------------ builds --
    def lib(self, **over):
        """Static library built from the working tree with the repository's
        own Makefile; keyword arguments override build settings."""
        key = ",".join("%s=%s" % kv for kv in sorted(over.items())) or "default"
        if key in self.libs:
            return self.libs[key]
        d = os.path.join(self.work, "lib%d" % self.nlibs)
        self.nlibs += 1
        os.makedirs(d)
        # warnings of non-default variants are not this check's business
        args = dict(over)
        if over:
            args["CFLAGS"] = (args.get("CFLAGS", "") + " -w -Wno-error").strip()
        env = {k: v for k, v in os.environ.items()
               if k not in ("MAKEFLAGS", "MAKELEVEL", "CFLAGS", "LFLAGS",
                            "LDFLAGS", "CPATH", "LIBRARY_PATH")}
        rc, out = sh(["make", "-s", "-j%d" % NCPU, "-C", REPO, "CC=gcc",
                      "LD=ld", "AR=ar", "PP=cpp",
                      "BUILDDIR=%s/o" % d, "BINDIR=%s/bin" % d] +
                     ["%s=%s" % kv for kv in args.items()] + ["static"],
                     env=env)
        a = os.path.join(d, "bin", "libhev-task-system.a")
        if (rc or not os.path.exists(a)) and over:
            self.notes.setdefault("variants_not_built", []).append(key)
            a = self.libs[key] = self.lib()
            return a
        if rc or not os.path.exists(a):
            raise CheckError("library does not build (%s):\n%s" % (key, out[-3000:]))
        self.libs[key] = a
        return a

    def program(self, name, sources, lib, wraps=(), cflags=(), extra=()):
        out = os.path.join(self.work, "%s-%s" % (
            name, hashlib.md5(lib.encode()).hexdigest()[:6]))
        if os.path.exists(out):
            return out
        cmd = ["gcc", "-g", "-O1", "-w", "-o", out]
        cmd += [os.path.join(HARNESS, s) for s in sources]
        cmd += ["-I", os.path.join(REPO, "include"), "-I", HARNESS]
        cmd += list(cflags)
        if wraps:
            cmd.append("-Wl," + ",".join("--wrap=" + w for w in wraps))
        cmd += [lib, "-lpthread"] + list(extra)
        rc, o = sh(cmd)
        if rc:
            raise CheckError("harness %s does not build:\n%s" % (name, o[-3000:]))
        return out

    # --------------------------------------------------------------- TLC --
    def tlc(self, module, cfg, env=None, workers=None, timeout=800, args=(),
            heap="3g"):
        """Runs TLC; returns (ok, text).  ok is False when TLC reports a
        violation; anything else that goes wrong raises CheckError."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        if "\n" in cfg:
            p = os.path.join(meta, "run.cfg")
            with open(p, "w") as f:
                f.write(cfg)
            cfg = p
        else:
            cfg = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({"VT_DIAG": "0", "VT_TRACES": "", "VT_ARG": ""})
        e.update(env or {})
        # the working directory must not be SPEC: TLC drops files there
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers or min(NCPU, 8)), "-config", cfg]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        rc, out = sh(cmd, timeout=timeout, env=e, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        if rc == 0:
            return True, out
        if rc in (10, 11, 12, 13):
            return False, out
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, rc, out[-4000:]))

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            return int(m[-1]), int(m[-1])
        return 0, 0

    def model(self, module, cfg=None, need=(), **kw):
        """Exhaustive check of a specification; must succeed.  `need` names
        actions that must have been taken (guards against vacuity)."""
        t = time.time()
        ok, out = self.tlc(module, cfg or module + ".cfg",
                           args=["-coverage", "1"] if need else [], **kw)
        if not ok:
            raise CheckError("specification %s violates its own properties:\n%s"
                             % (module, out[-6000:]))
        gen, dist = self.tlc_counts(out)
        if dist == 0:
            raise CheckError("no states explored for %s:\n%s" % (module, out[-2000:]))
        for a in need:
            m = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), out)
            if not m or max(int(x[1]) for x in m) == 0:
                raise CheckError("action %s of %s never taken" % (a, module))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg if cfg and "\n" not in cfg else module,
                            "distinct_states": dist, "generated": gen,
                            "wall_s": round(time.time() - t, 1)})
        return out

    def generate(self, module, cfg, num, depth, env=None, timeout=120):
        """Behaviours generated by TLC in simulation mode; the module prints
        <<"GEN", json>> lines."""
        ok, out = self.tlc(module, cfg, workers=1, timeout=timeout, env=env,
                           args=["-simulate", "num=%d" % num, "-depth",
                                 str(depth), "-seed", str(self.seed)])
        # all successors of the last state of a behaviour are printed: keep one
        groups = {}
        for m in re.finditer(r'<<"GEN", "(.*)">>', out):
            h = json.loads(m.group(1).encode().decode("unicode_escape"))
            groups.setdefault(json.dumps(h[:-1]), []).append(h)
        res = [self.rng.choice(g) for g in groups.values()]
        if not ok or not res:
            raise CheckError("generation from %s failed:\n%s" % (module, out[-3000:]))
        self.notes.setdefault("generated_behaviours", {})[module] = len(res)
        return res

    def tour(self, module, cfg, limit=0, timeout=300):
        """A call sequence for every transition of the (reduced) state graph
        of a generator module: shortest way to its source, then the step.
        Sequences that begin another one are left out; at most `limit`."""
        if "\n" not in cfg:
            with open(os.path.join(SPEC, cfg)) as f:
                cfg = f.read()
        cfg = re.sub(r"INVARIANTS? .*\n", "", cfg)
        ok, out = self.tlc(module, cfg + "VIEW TourView\nACTION_CONSTRAINT Tour\n",
                           workers=1, timeout=timeout)
        seqs = {m.group(1) for m in re.finditer(r'<<"GEN", "(.*)">>', out)}
        if not ok or not seqs:
            raise CheckError("tour of %s failed:\n%s" % (module, out[-3000:]))
        gen, dist = self.tlc_counts(out)
        seqs = [json.loads(x.encode().decode("unicode_escape")) for x in sorted(seqs)]
        begun = {json.dumps(h[:k]) for h in seqs for k in range(1, len(h))}
        res = [h for h in seqs if json.dumps(h) not in begun]
        n = len(res)
        if limit and n > limit:
            res = self.rng.sample(res, limit)
        self.notes.setdefault("tours", []).append(
            {"module": module, "states": dist, "transitions": gen, "sequences": n,
             "used": len(res)})
        return res

    # ----------------------------------------------------------- harness --
    def run_scripts(self, prog, scripts, env=None, jobs=None, args=(), timeout=600,
                    group=1):
        """scripts: list of texts.  Returns the list of raw trace lines."""
        jobs = jobs or min(NCPU, 8)
        parts = [[] for _ in range(max(1, min(jobs, (len(scripts) + 7) // 8)))]
        for i, s in enumerate(scripts):
            parts[i // group * group * len(parts) // len(scripts)].append(s)
        e = dict(os.environ)
        e.update(env or {})
        tag = "%d" % (time.time() * 1e6)

        def one(i):
            fi = os.path.join(self.work, "s%s-%d" % (tag, i))
            fo = os.path.join(self.work, "o%s-%d" % (tag, i))
            with open(fi, "w") as f:
                f.write("".join(parts[i]))
            rc, out = sh([prog, fi, fo] + list(args), timeout=timeout, env=e)
            if rc:
                raise CheckError("harness failed (%d): %s" % (rc, out[-2000:]))
            with open(fo) as f:
                lines = f.read().splitlines()
            os.unlink(fi)
            os.unlink(fo)
            return lines

        with ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(one, range(len(parts))))
        # a trace without events is one of an execution that broke down at once
        lines = [x.replace('"ev":[]', '"ev":[{"e":"crash","t":0,"o":"nop","a":-16,"b":0,"c":0,"r":0}]')
                 for r in res for x in r]
        if len(lines) != len(scripts):
            raise CheckError("harness produced %d traces for %d scripts"
                             % (len(lines), len(scripts)))
        return lines

    def validate(self, module, lines, cfg=None, timeout=800, jvms=None, heap="2g"):
        """Asks TLC which of the traces are behaviours of the specification;
        returns the list of rejected indices."""
        if not lines:
            return []
        jvms = jvms or (1 if len(lines) < 40 else min(4, NCPU // 2))
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        groups = [order[i::jvms] for i in range(jvms)]

        def one(idx):
            f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=self.work,
                                            delete=False)
            f.write("\n".join(lines[i] for i in idx) + "\n")
            f.close()
            ok, out = self.tlc(module, cfg or TRACE_CFG, workers=2, heap=heap,
                               env={"VT_TRACES": f.name}, timeout=timeout)
            os.unlink(f.name)
            if not ok:
                raise CheckError("trace specification %s failed:\n%s"
                                 % (module, out[-4000:]))
            acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
            gen, dist = self.tlc_counts(out)
            return [i for n, i in enumerate(idx) if n + 1 not in acc], gen, dist

        with ThreadPoolExecutor(len(groups)) as ex:
            res = list(ex.map(one, [g for g in groups if g]))
        bad = sorted(i for r in res for i in r[0])
        for _, gen, dist in res:
            self.states += dist
            self.transitions += gen
        return bad

    def where(self, module, line, cfg=None):
        """How far a rejected trace can be followed (number of events)."""
        p = os.path.join(self.work, "diag.ndjson")
        with open(p, "w") as f:
            f.write(line + "\n")
        ok, out = self.tlc(module, cfg or TRACE_CFG, workers=1,
                           env={"VT_TRACES": p, "VT_DIAG": "1"})
        at = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)]
        return max(at) if at else 0

    def save_replay(self, data):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (
            self.prop, hashlib.md5(json.dumps(data).encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return p

    def check_traces(self, module, prog, scripts, env=None, cfg=None, what="",
                     args=(), sample=3, jobs=None, known=None, group=1, tries=1):
        """Executes the scripts and validates the recorded traces.  A rejected
        trace is confirmed by executing its script again, up to tries times."""
        lines = self.run_scripts(prog, scripts, env=env, args=args, jobs=jobs, group=group)
        self.traces += len(lines)
        for ln in lines:
            self.events += ln.count('"e":')
        if lines and sample:
            for i in sorted(self.rng.sample(range(len(lines)), min(sample, len(lines)))):
                if len(self.samples) < 8:
                    self.samples.append({"module": module, "script": scripts[i][:1500],
                                         "trace": lines[i][:1500]})
        # the specification must not accept a trace with a crash in it
        probe = json.loads(min(lines, key=len))
        probe["ev"].insert(len(probe["ev"]) - 1, dict(probe["ev"][-1], e="crash", o="nop", a=-1, b=0, c=0, r=0))
        bad = self.validate(module, lines + [json.dumps(probe)], cfg=cfg)
        if len(lines) not in bad:
            raise CheckError("%s accepts a trace with a crash" % module)
        bad.remove(len(lines))
        confirmed = []
        # scripts that were not executed come last
        for i in sorted(bad, key=lambda i: '"a":999,' in lines[i][-200:])[:6]:
            g0 = i // group * group
            again = [self.run_scripts(prog, scripts[g0:g0 + group], env=env, args=args,
                                      jobs=1, group=group)[i - g0] for _ in range(tries)]
            still = self.validate(module, again, cfg=cfg)
            if still:
                confirmed.append((i, again[still[0]]))
                break
        if bad and not confirmed:
            self.notes.setdefault("unconfirmed_rejections", 0)
            self.notes["unconfirmed_rejections"] += len(bad)
        for i, line in confirmed:
            tr = json.loads(line)
            n = self.where(module, line, cfg=cfg)
            ev = tr.get("ev", [])
            at = ev[n] if n < len(ev) else None
            replay = self.save_replay({
                "property": self.prop, "module": module, "what": what,
                "program": os.path.basename(prog), "env": env, "args": list(args),
                "script": scripts[i], "trace": tr, "accepted_events": n,
                "rejected_event": at})
            raise Violation("%s: trace %s is not a behaviour of %s: event %d %s"
                            % (what or module, tr.get("id"), module, n + 1,
                               json.dumps(at)), replay)
        return lines

    # ---------------------------------------------------------- evidence --
    def evidence(self, spec, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events": self.events,
               "samples": self.samples[:8] or [{"note": "none"}],
               "models": self.models}
        cov.update(self.notes)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed,
             "level": spec.get("level", "model_checking"), "coverage": cov,
             "assumptions": spec.get("assumptions", []),
             "violations": violations,
             "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", "%s.json" % self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(d, f, indent=1)
        os.replace(p + ".tmp", p)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            print("kept", self.work)


TRACE_CFG = "INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n"


def main(prop, fn, spec):
    ctx = Ctx(prop)
    rc = 0
    viol = []
    try:
        fn(ctx)
        for kf in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf))
        print("%s: held; %d states, %d traces, %.1fs" % (
            prop, ctx.states, ctx.traces, time.time() - ctx.t0))
    except Violation as v:
        if not v.replay:
            v.replay = ctx.save_replay({"property": prop, "what": v.what})
        viol.append({"what": v.what[:2000], "replay": v.replay})
        print(v.what[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 2
    except Exception as e:  # noqa: BLE001 - any surprise is an error of the check
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 3
    try:
        if rc in (0, 1):
            ctx.evidence(spec, viol)
    finally:
        ctx.close()
    sys.stdout.flush()
    return rc
