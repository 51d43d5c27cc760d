"""Machinery shared by all checks: build, run, validate, model-check, report."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
GO = "/opt/veriftools/go1.25.14/bin/go"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODDIR = "/root/go/pkg/mod/github.com/johnsiilver"
MODULE = "github.com/gostdlib/concurrency"
CPUS = os.cpu_count() or 8
SKIP_DIRS = {"examples", "tools", "testing", "etoe", "benchmarks", "testdata", ".git", "zzverif", "vendor"}


class Broken(Exception):
    """The check could not be carried out (not a violation)."""


def goenv(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOPATH", "GOMODCACHE"):
            del e[k]
    cache = os.path.join(VERIF, ".cache", "go")
    os.makedirs(cache, exist_ok=True)
    e.update(
        HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=cache,
        PATH=os.path.dirname(GO) + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    e.update(extra or {})
    return e


procs = set()
plock = threading.Lock()


def run(cmd, timeout, **kw):
    """Runs cmd in its own process group and returns (exit code, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    with plock:
        procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        raise Broken("timeout after %ds: %s\n%s" % (timeout, " ".join(cmd)[:300], out.decode(errors="replace")[-2000:]))
    finally:
        with plock:
            procs.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def kill_all():
    with plock:
        for p in list(procs):
            kill(p)


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")

    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def close(self):
        if self.dir.startswith("/tmp/vf-") or "vf-" in self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def repo_sources():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in SKIP_DIRS and not x.startswith((".", "_"))]
        for f in files:
            if f.endswith(".go") and not f.endswith("_test.go"):
                out.append(os.path.join(d, f))
    return sorted(out)


class Builder:
    """Builds harness binaries from /repo's working tree through an overlay."""

    def __init__(self, scratch):
        self.s = scratch
        self.lock = threading.Lock()
        self.instr = None
        self.fallback = None

    def overlay_harness(self, driver, where):
        ov = {}
        for p in ("vsched", "vsync", "vatomic", "hx", "vspan"):
            d = os.path.join(VERIF, "harness", p)
            for f in os.listdir(d):
                if f.endswith(".go"):
                    ov[os.path.join(REPO, "zzverif", p, f)] = os.path.join(d, f)
        d = os.path.join(VERIF, "harness", "drivers", driver)
        for f in os.listdir(d):
            if f.endswith(".go"):
                ov[os.path.join(REPO, where, f)] = os.path.join(d, f)
        return ov

    def build_instr(self):
        with self.lock:
            if self.instr is None:
                exe = self.s.path("instr.exe")
                rc, out = run([GO, "build", "-o", exe, os.path.join(VERIF, "harness", "instr", "main.go")], 300, env=goenv(), cwd=self.s.dir)
                if rc != 0:
                    raise Broken("cannot build the instrumenter:\n" + out)
                self.instr = exe
        return self.instr

    def instrument(self, tag, shim, deps):
        instr = self.build_instr()
        args, ov = [], {}
        for i, f in enumerate(repo_sources()):
            o = self.s.path(tag, "%03d_%s" % (i, os.path.basename(f)))
            args += [f, o]
            ov[f] = o
        modargs = []
        if deps:
            mod = open(os.path.join(REPO, "go.mod")).read()
            for name, files in (("dynamics", ["demux/demux.go"]), ("pools", ["goroutines/pooled/goroutines.go"])):
                m = re.search(r"github.com/johnsiilver/%s (v\S+)" % name, mod)
                if not m:
                    raise Broken("go.mod does not require " + name)
                src = os.path.join(MODDIR, "%s@%s" % (name, m.group(1)))
                dst = self.s.path(tag, "dep_" + name)
                shutil.copytree(src, dst)
                for d, dirs, fs in os.walk(dst):
                    os.chmod(d, 0o755)
                for f in files:
                    o = os.path.join(dst, f)
                    os.chmod(o, 0o644)
                    args += [os.path.join(src, f), o]
                mod += "\nreplace github.com/johnsiilver/%s => %s\n" % (name, dst)
            mf = self.s.path(tag, "go.mod")
            open(mf, "w").write(mod)
            shutil.copy(os.path.join(REPO, "go.sum"), self.s.path(tag, "go.sum"))
            modargs = ["-modfile", mf]
        rc, out = run([instr] + ([] if shim else ["-noshim"]) + args, 120)
        if rc != 0:
            raise Broken("instrumentation failed: " + out[-2000:])
        return ov, modargs

    def compile(self, tag, where, ov, modargs, race):
        f = self.s.path(tag, "overlay.json")
        json.dump({"Replace": ov}, open(f, "w"))
        exe = self.s.path(tag, "harness.exe")
        cmd = [GO, "test", "-c", "-vet=off", "-overlay", f, "-o", exe] + modargs + (["-race"] if race else []) + ["./" + where]
        rc, out = run(cmd, 600, env=goenv(), cwd=REPO)
        if rc != 0 or not os.path.exists(exe):
            return None, out
        return exe, out

    def controlled(self, driver, where, deps=False):
        errs = []
        for tag, shim, dp in (("c0", True, deps), ("c1", True, False), ("c2", False, False)):
            if dp != deps and tag == "c0":
                continue
            try:
                ov, modargs = self.instrument(driver + tag, shim, dp)
            except Broken as e:
                errs.append(str(e))
                continue
            ov.update(self.overlay_harness(driver, where))
            exe, out = self.compile(driver + tag, where, ov, modargs, False)
            if exe:
                self.fallback = None if tag == "c0" else tag
                return exe
            errs.append(out)
        # Without instrumentation only the blocking operations are scheduling points.
        exe, out = self.compile(driver + "c3", where, self.overlay_harness(driver, where), [], False)
        if exe:
            self.fallback = "c3"
            return exe
        raise Broken("the harness does not build:\n" + "\n".join(x[-3000:] for x in errs + [out]))

    def free(self, driver, where):
        exe, out = self.compile(driver + "f", where, self.overlay_harness(driver, where), [], True)
        if not exe:
            raise Broken("the harness does not build with -race:\n" + out[-3000:])
        return exe


def run_shards(scratch, exe, test, mode, prop, seed, shards, n, seconds, scripts=None, only=0, procs_per=1, extra=None):
    """Runs the harness; returns (trace lines, summary)."""
    outs = []

    def shard(i):
        o = scratch.path("%s-%s-%d" % (test, mode, i) + ("s" if scripts else ""), "out")
        env = dict(
            VH_OUT=o, VH_SEED=str(seed), VH_SHARD=str(i), VH_SHARDS=str(shards), VH_N=str(n),
            VH_SECONDS=str(seconds), VH_FOCUS=prop, VH_MODE="free" if mode == "free" else "ctl",
            GORACE="halt_on_error=1 exitcode=66",
        )
        if scripts:
            env["VH_SCRIPTS"] = scripts
        if only:
            env["VH_ONLY"] = str(only)
        if mode != "free":
            env["GOMAXPROCS"] = "2"
        else:
            env["GOMAXPROCS"] = str(max(2, CPUS // max(1, min(shards, 2))))
        env.update(extra or {})
        rc, out = run([exe, "-test.run", "^%s$" % test, "-test.timeout", "0"], seconds + 240, env=goenv(env), cwd=os.path.dirname(o))
        return i, o, rc, out

    lines, summ, notes = [], {}, []
    with cf.ThreadPoolExecutor(max_workers=shards) as ex:
        for i, o, rc, out in ex.map(shard, range(shards)):
            if os.path.exists(o):
                for l in open(o, errors="replace"):
                    l = l.strip()
                    if l.endswith("]}"):
                        lines.append(l)
            if os.path.exists(o + ".sum"):
                for k, v in json.load(open(o + ".sum")).items():
                    summ[k] = max(summ.get(k, 0), v) if k in ("seconds", "sites") else summ.get(k, 0) + v
            if rc != 0:
                l, note = crashed(o, rc, out)
                lines.append(l)
                notes.append(note)
    return lines, summ, notes


def crashed(o, rc, out):
    """Turns the end of a harness process into the last event of its current trace."""
    if rc in (-9, 137) or "out of memory" in out:
        raise Broken("the harness was killed (memory?): rc=%d\n%s" % (rc, out[-1500:]))
    cur = b""
    if os.path.exists(o + ".cur"):
        cur = open(o + ".cur", "rb").read().split(b"\0")[0]
    if not cur:
        raise Broken("the harness failed: rc=%d\n%s" % (rc, out[-3000:]))
    txt = cur.decode(errors="replace")
    if rc == 77:
        kind, msg = "hang", "no progress"
    elif rc == 66 or "DATA RACE" in out:
        kind, msg = "race", "data race"
    else:
        m = re.search(r"^(panic: .*|fatal error: .*|.*bug: .*)$", out, re.M)
        kind, msg = "crash", (m.group(1) if m else "exit status %d" % rc)[:200]
    if kind == "hang":
        txt = txt.replace(',{"k":"hang"}', "")
    dec = None
    for _ in range(50):
        for suffix in ("]}", '"}]}'):
            try:
                dec = json.loads(txt + suffix)
                break
            except ValueError:
                continue
        if dec is not None:
            break
        k = txt.rfind(',{"k":')
        if k < 0:
            raise Broken("the harness failed: rc=%d\n%s\n%s" % (rc, txt[:300], out[-3000:]))
        txt = txt[:k]
    dec["ev"].append({"k": kind, "m": msg})
    dec["id"] = dec.pop("seed")
    return json.dumps(dec), "%s: %s\n%s" % (kind, msg, out[-6000:])


def tlc(scratch, module, cfg, workers=1, env=None, args=(), heap="3g", timeout=600, name=None):
    """Runs TLC; returns (exit code, output)."""
    tag = name or "%s-%s" % (module, os.path.basename(cfg))
    meta = scratch.path("tlc-" + tag, "x")
    d = os.path.dirname(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(2, workers)), "-XX:TieredStopAtLevel=%d" % (1 if workers == 1 else 4),
           "-Xss64m", "-Xmx" + heap, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dvf=1",
           "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-metadir", d, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    return run(cmd, timeout, env=e, cwd=os.path.join(VERIF, "spec"))


KIND = re.compile(r'"k": ?"(\w+)"')
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_stats(out):
    g, d = 0, 0
    for m in STAT.finditer(out):
        g, d = int(m.group(1)), int(m.group(2))
    return g, d


def validate(scratch, module, lines, shards, tag, cfg="Trace.cfg"):
    """Validates traces against a specification; returns (violations, states, transitions)."""
    if not lines:
        return [], 0, 0
    shards = max(1, min(shards, (len(lines) + 24) // 25))
    buckets = [[] for _ in range(shards)]
    load = [0] * shards
    for l in sorted(lines, key=len, reverse=True):
        i = load.index(min(load))
        buckets[i].append(l)
        load[i] += len(l)
    viol, states, trans = [], 0, 0

    def one(i):
        f = scratch.path("traces-%s-%s-%d.ndjson" % (module, tag, i))
        open(f, "w").write("\n".join(buckets[i]) + "\n")
        rc, out = tlc(scratch, module, cfg, env={"TRACES": f}, name="%s-%s-%d" % (module, tag, i), timeout=800)
        want = sum(l.count('"k":') + 1 for l in buckets[i])
        return rc, out, want

    with cf.ThreadPoolExecutor(max_workers=shards) as ex:
        for rc, out, want in ex.map(one, range(shards)):
            if rc != 0:
                raise Broken("TLC failed on traces of %s (rc=%d):\n%s" % (module, rc, out[-4000:]))
            g, d = tlc_stats(out)
            if d != want:
                raise Broken("TLC consumed %d of %d trace states of %s" % (d, want, module))
            states += d
            trans += g
            for m in re.finditer(r'^"?VIOL\|(-?\d+)\|(\d+)\|(.*?)"?$', out, re.M):
                for p, msg in re.findall(r'<<\\?"(\w+)\\?", \\?"([^"\\]*)\\?">>', m.group(3)):
                    viol.append((p, int(m.group(1)), int(m.group(2)), msg))
    return viol, states, trans


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("=") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    raise ValueError(v)


def model_check(scratch, module, consts, invariants=("Correct",), expect="ok", workers=2, timeout=600, args=(), properties=(), heap="3g"):
    """Model-checks a specification; expect is ok, or violation for deliberately wrong variants."""
    name = module + "-" + hashlib.sha1(repr(sorted(consts.items())).encode()).hexdigest()[:10] + expect
    cfg = scratch.path(name + ".cfg")
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS\n")
        for k, v in consts.items():
            f.write("  %s = %s\n" % (k, tla(v)))
        f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
    t = time.time()
    rc, out = tlc(scratch, module, cfg, workers=workers, timeout=timeout, args=args, name=name, heap=heap)
    g, d = tlc_stats(out)
    if expect == "ok" and rc != 0:
        raise Broken("model checking %s with %s failed (rc=%d):\n%s" % (module, consts, rc, out[-6000:]))
    if expect == "violation" and rc not in (12, 13, 10, 11):
        raise Broken("the wrong variant %s of %s was not refuted (rc=%d):\n%s" % (consts, module, rc, out[-3000:]))
    return {"module": module, "constants": {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in consts.items()},
            "expect": expect, "states": d, "transitions": g, "seconds": round(time.time() - t, 1)}
