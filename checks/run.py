#!/usr/bin/env python3
"""Decides one property: run.py PROPERTY [--tier quick|thorough] | --replay FILE | --setup

1. model checking: TLC explores the algorithm model of every component of the property under
   the component's contract, and refutes its deliberately wrong variants;
2. conformance: the real code, built from /repo's working tree, is run under controlled and free
   schedules, and TLC validates every recorded trace against the same contract.
Violations are reported from executions of the real code only.
"""
import collections
import concurrent.futures as cf
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import skel
from components import COMPONENTS, PROPS, TECHNIQUE

LEVEL = "model_checking"


def known_findings():
    out = []
    p = os.path.join(lib.VERIF, "known-findings.txt")
    for l in open(p):
        if l.startswith("finding: "):
            f = dict(x.split("=", 1) for x in l.split("|")[0].split()[1:] if "=" in x)
            f["text"] = l.split("|")[-1].strip()
            f["match"] = l.split("|")[1].strip() if l.count("|") > 1 else f["text"]
            out.append(f)
    return out


def gen_scripts(scratch, comp, tier, seed):
    """Scripts of environment actions generated by TLC from the component's Gen module."""
    g = comp.get("gen")
    if not g:
        return None, 0
    consts = dict(g["consts"][tier])
    cfg = scratch.path("gen-%s.cfg" % g["module"])
    with open(cfg, "w") as f:
        f.write("CONSTANTS\n" + "".join("  %s = %s\n" % (k, lib.tla(v)) for k, v in consts.items()))
        f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + ("INVARIANT %s\n" % g["inv"] if "inv" in g else ""))
    args = []
    if g.get("simulate"):
        args = ["-simulate", "num=%d" % g["simulate"][tier], "-depth", str(g["depth"]), "-seed", str(seed)]
    rc, out = lib.tlc(scratch, g["module"], cfg, workers=1, args=args, timeout=300)
    if rc != 0:
        raise lib.Broken("script generation with %s failed:\n%s" % (g["module"], out[-3000:]))
    seen = []
    have = set()
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"SCRIPT|'):
            l = json.loads(l)
        if l.startswith("SCRIPT|"):
            l = l[7:]
            if l not in have:
                have.add(l)
                seen.append(l)
    if not seen:
        raise lib.Broken("no scripts generated by " + g["module"])
    f = scratch.path("scripts-%s.json" % g["module"])
    open(f, "w").write("\n".join(seen) + "\n")
    return f, len(seen)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.s = lib.Scratch()
        self.b = lib.Builder(self.s)
        self.viol = []       # (component, mode, message, trace line, index)
        self.models = []
        self.runs = []
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.kinds = collections.Counter()
        self.notes = []
        self.quick = tier == "quick"

    def mc(self, name, m):
        r = lib.model_check(self.s, m["module"], m["consts"], invariants=m.get("inv", ("Correct",)), expect=m.get("expect", "ok"),
                            workers=m.get("workers", 2), timeout=m.get("timeout", 800), args=m.get("args", ()), heap=m.get("heap", "4g"))
        r["component"] = name
        return r

    def conform(self, name, comp, mode, exe, n, seconds, scripts=None, shards=None):
        if not n:
            return
        shards = shards or (lib.CPUS if mode == "ctl" else 2)
        traced = self.prop == "C29"
        lines, summ, notes = lib.run_shards(self.s, exe, comp["test"], mode, self.prop, self.seed, shards, n, seconds, scripts,
                                            extra={"VH_TRACE": "1"} if traced else comp.get("env"))
        self.notes += notes
        plain = None
        if traced:
            def plain(plus):
                return lib.run_shards(self.s, exe, comp["test"], mode, self.prop, self.seed + plus, shards, n, seconds, scripts, extra={"VH_TRACE": "0"})[0]
        self.judge(name, comp, mode, lines, summ, bool(scripts), plain)

    def judge(self, name, comp, mode, lines, summ, scripts, plain=None):
        """Validates the traces and notes the violations of this property."""
        viol, st, tr = lib.validate(self.s, comp["trace"], lines, lib.CPUS, "%s-%s%s" % (name, mode, "s" if scripts else ""))
        self.states += st
        self.trans += tr
        self.traces += len(lines)
        ev = 0
        for l in lines:
            for k in lib.KIND.findall(l):
                self.kinds["%s.%s" % (name, k)] += 1
                ev += 1
        summ.update(component=name, mode=mode + ("+model-generated scripts" if scripts else ""), traces=len(lines), events=ev)
        self.runs.append(summ)
        byid = {}
        other = [v for v in viol if v[0] == "MODEL"]
        if other:
            raise lib.Broken("the trace does not fit the specification: %s" % (other[0],))
        mine = [v for v in viol if v[0] == self.prop]
        if plain and viol:
            # What happens with tracing but not without it violates C29.
            for plus in (0, 1000):
                l2 = plain(plus)
                v2, _, _ = lib.validate(self.s, comp["trace"], l2, lib.CPUS, "%s-%s%s-plain%d" % (name, mode, "s" if scripts else "", plus))
                self.traces += len(l2)
                usual = {(v[0], v[3]) for v in v2}
                viol = [v for v in viol if (v[0], v[3]) not in usual]
            mine = [("C29", i, k, "with a recording span only: %s: %s" % (p, m)) for p, i, k, m in viol]
        if mine:
            for l in lines:
                byid[json.loads(l)["id"]] = l
        for p, i, k, m in mine:
            self.viol.append((name, mode, m, byid[i], k, scripts))
        short = sorted(lines, key=len)
        if short:
            for l in (short[len(short) // 2],):
                d = json.loads(l)
                d["ev"] = d["ev"][:40]
                self.samples.append({"component": name, "mode": mode, "trace": d})

    def generator(self, name, comp):
        """The skeleton generator: every script is one history of real processes."""
        f, _ = gen_scripts(self.s, comp, self.tier, self.seed)
        lines, summ = skel.execute(self.s, f, self.tier, self.seed)
        self.judge(name, comp, "proc", lines, summ, False)
        if not self.viol:
            self.vacuous(name, comp)

    def vacuous(self, name, comp):
        """Every kind of event this component is about must have occurred."""
        for k in comp.get("need", ()) + comp.get("needfor", {}).get(self.prop, ()):
            if self.kinds["%s.%s" % (name, k)] == 0:
                raise lib.Broken("no %s event was ever recorded for %s: the check would be vacuous" % (k, name))

    def go(self):
        t = time.time()
        names = PROPS[self.prop]
        with cf.ThreadPoolExecutor(max_workers=3) as mcs:
            futs = []
            for n in names:
                for m in COMPONENTS[n].get("mc", ()):
                    if self.prop not in m.get("props", (self.prop,)) or (self.quick and m.get("thorough")):
                        continue
                    if self.prop == "C29" and m.get("expect", "ok") != "ok":
                        continue
                    futs.append(mcs.submit(self.mc, n, m))
            try:
                for n in names:
                    self.component(n, COMPONENTS[n])
            except BaseException:
                for f in futs:
                    f.cancel()
                lib.kill_all()
                raise
            if self.viol:   # the verdict is clear
                for f in futs:
                    f.cancel()
                lib.kill_all()
            else:
                for f in futs:
                    self.models.append(f.result())
        for m in self.models:
            self.states += m["states"]
            self.trans += m["transitions"]
        return self.report(t)

    def component(self, n, c):
        if c.get("processes"):
            return self.generator(n, c)
        with cf.ThreadPoolExecutor(max_workers=3) as ex:
            ctl = ex.submit(self.b.controlled, c["driver"], c["where"], c.get("deps", False))
            free = ex.submit(self.b.free, c["driver"], c["where"]) if c.get("free") else None
            x = 0 if self.quick else 1
            rounds = 0 if self.prop == "C29" and self.quick else c.get("gen", {}).get("rounds", (1, 1))[x]
            gen = ex.submit(gen_scripts, self.s, c, self.tier, self.seed) if rounds else None
            exe = ctl.result()
            if self.b.fallback:
                self.notes.append("instrumentation fallback " + self.b.fallback)
            focus = c.get("focus", {}).get(self.prop, 0.4 if self.prop == "C29" and self.quick else 1)
            self.conform(n, c, "ctl", exe, int(c["n"][x] * focus), c["seconds"][x])
            if gen and not self.viol:
                scripts, k = gen.result()
                self.runs.append({"component": n, "scripts": k})
                self.conform(n, c, "ctl", exe, -(-k * rounds // lib.CPUS), c["seconds"][x], scripts)
            if free:
                fe = free.result()
                if not self.viol:
                    self.conform(n, c, "free", fe, c["free"][x], c["fseconds"][x] if "fseconds" in c else c["seconds"][x])
            if not self.viol:
                self.vacuous(n, c)

    def report(self, t):
        viol = []
        known = known_findings()
        hit = {}
        for v in self.viol:
            k = next((f for f in known if f["property"] == self.prop and f["match"] in v[2] + " " + v[3]), None)
            if k:
                hit[k["text"]] = k
            else:
                viol.append(v)
        for f in known:
            if f["property"] == self.prop:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["text"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL,
            "coverage": {
                "states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                "samples": self.samples[:6],
                "model_runs": self.models,
                "wrong_model_variants_refuted": sum(1 for m in self.models if m["expect"] == "violation"),
                "executions_of_the_real_code": sum(r.get("executions", 0) for r in self.runs),
                "scheduling_choices": sum(r.get("choices", 0) for r in self.runs),
                "conformance_runs": self.runs,
                "events": dict(sorted(self.kinds.items())),
            },
            "assumptions": TECHNIQUE[self.prop]["assumptions"],
            "wall_s": round(time.time() - t, 2),
            "violations": len(viol),
        }
        if self.notes:
            ev["coverage"]["notes"] = [x[:500] for x in self.notes[:5]]
        os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(lib.VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if not viol:
            print("ok property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces, ev["wall_s"]))
            return 0
        viol.sort(key=lambda v: len(v[3]))
        comp, mode, msg, line, idx, scripted = viol[0]
        d = json.loads(line)
        os.makedirs(os.path.join(lib.VERIF, "replays"), exist_ok=True)
        path = os.path.join(lib.VERIF, "replays", "%s-%s-%d.json" % (self.prop, comp, d["id"]))
        json.dump({"property": self.prop, "component": comp, "mode": mode, "scripted": scripted, "message": msg, "event": idx, "seed": self.seed, "tier": self.tier,
                   "trace": d, "notes": [x[-6000:] for x in self.notes[:3]],
                   "all": collections.Counter("%s: %s" % (v[0], v[2]) for v in viol).most_common()}, open(path, "w"), indent=1)
        print("%s: %s (event %d of execution %d, %d violating events in all)" % (comp, msg, idx, d["id"], len(viol)))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def replay(path):
    """Validates the recorded trace again and repeats the execution with the same seed."""
    r = json.load(open(path))
    comp = COMPONENTS[r["component"]]
    s = lib.Scratch()
    try:
        viol, _, _ = lib.validate(s, comp["trace"], [json.dumps(r["trace"])], 1, "replay")
        print("recorded trace:", [v for v in viol if r["property"] in (v[0], "C29")])
        if comp.get("processes"):
            f, _ = gen_scripts(s, comp, r["tier"], r["seed"])
            lines = [l for l in skel.execute(s, f, r["tier"], r["seed"])[0] if json.loads(l)["id"] == r["trace"]["id"]]
            print("executed again:", lib.validate(s, comp["trace"], lines, 1, "again")[0])
            print("\n".join(lines))
            return 0
        b = lib.Builder(s)
        exe = b.controlled(comp["driver"], comp["where"], comp.get("deps", False)) if r["mode"] == "ctl" else b.free(comp["driver"], comp["where"])
        scripts = gen_scripts(s, comp, r["tier"], r["seed"])[0] if r.get("scripted") else None
        lines, _, notes = lib.run_shards(s, exe, comp["test"], r["mode"], r["property"], r["seed"], 1, 1, 100, scripts, only=r["trace"]["id"],
                                         extra={"VH_TRACE": "1"} if r["property"] == "C29" else comp.get("env"))
        viol, _, _ = lib.validate(s, comp["trace"], lines, 1, "again")
        print("executed again:", [v for v in viol if r["property"] in (v[0], "C29")])
        for l in lines:
            for k, e in enumerate(json.loads(l)["ev"]):
                print(k + 1, json.dumps(e))
    finally:
        s.close()
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for p in (lib.GO, "/opt/veriftools/tla/tla2tools.jar"):
            if not os.path.exists(p):
                print("missing", p)
                return 2
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = None
    try:
        c = Check(prop, tier, seed)
        return c.go()
    except lib.Broken as e:
        print("BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        lib.kill_all()
        if c:
            c.s.close()


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: (lib.kill_all(), os._exit(2)))
    sys.exit(main())
