"""Runs the real skeleton generator (stagedpipe-cli) on scripts generated by SkelGen and records traces."""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess

import lib

PLAIN = re.compile(r"^[a-zA-Z][a-zA-Z0-9]*$")
BINDINGS = [("alpha", "beta"), ("data", "Data"), ("x_test", "pipeline"), ("mypipeline", "my-pipeline"), ("main", "type"), ("stagedpipe", "v2")]
MAIN = """package main

import (
	"context"
	"fmt"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	mine "%s"
)

func main() {
	x, err := mine.NewSM()
	if err != nil {
		panic(err)
	}
	p, err := stagedpipe.New[mine.Data]("name", 3, x)
	if err != nil {
		panic(err)
	}
	defer p.Close()
	g := p.NewRequestGroup()
	done := make(chan bool)
	go func() {
		defer close(done)
		for r := range g.Out() {
			if r.Err != nil {
				panic(r.Err)
			}
			fmt.Println(r.Data.Item)
		}
	}()
	for i := 0; i < 10; i++ {
		if err := g.Submit(mine.NewRequest(context.Background(), mine.Data{Item: i})); err != nil {
			panic(err)
		}
	}
	g.Close()
	<-done
	fmt.Println("pipeline ran successfully")
}
"""


def build_cli(scratch):
    exe = scratch.path("stagedpipe-cli")
    rc, out = lib.run([lib.GO, "build", "-o", exe, "./pipelines/stagedpipe/tools/stagedpipe-cli"], 600, env=lib.goenv(), cwd=lib.REPO)
    if rc != 0:
        raise lib.Broken("stagedpipe-cli does not build:\n" + out[-3000:])
    return exe


def files(root):
    out = {}
    for d, dirs, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        if not dirs and not fs and d != root:
            out[os.path.relpath(d, root) + "/"] = "dir"
    return out


class One:
    """One history of one module."""

    def __init__(self, scratch, cli, ident, script, seed):
        rng = random.Random("%d/%d" % (seed, ident))
        self.cli, self.id, self.script = cli, ident, script
        self.root = scratch.path("skel-%d" % ident, "mod", "x")[:-2]
        self.home = scratch.path("skel-%d" % ident, "home", "x")[:-2]
        kind = rng.choice([1, 1, 2, 3])
        self.cwd = self.root
        self.module = "example.com/m"
        self.prefix = self.module
        if kind == 2:
            self.cwd = os.path.join(self.root, "cmd", "tool")
            self.prefix += "/cmd/tool"
            os.makedirs(self.cwd)
        elif kind == 3:
            self.module = self.prefix = "m"
        a, b = rng.choice(BINDINGS)
        self.names = {"A": script["name"] or a, "B": b, "": ""}
        self.build = bool(script["name"]) or rng.random() < 0.4
        self.ev = []
        self.j = 0

    def emit(self, k, **kw):
        self.ev.append(dict(k=k, **kw))

    def spawn(self, b, m):
        self.j += 1
        self.emit("init", j=self.j, b=b, m=m)
        cmd = [self.cli, "init"] + (["-m"] if m else []) + (["-p", self.prefix + "/" + b] if b else [])
        return self.j, b, m, subprocess.Popen(cmd, cwd=self.cwd, env=dict(HOME=self.home, PATH="/usr/bin:/bin"), stdin=subprocess.DEVNULL,
                                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)

    def wait(self, calls):
        for j, b, m, p in calls:
            try:
                rc = p.wait(60)
            except subprocess.TimeoutExpired:
                lib.kill(p)
                p.wait()
                rc = 1
            if rc < 0:
                raise lib.Broken("stagedpipe-cli was killed")
            self.emit("initret", j=j, ok=rc == 0)
            if rc == 0:
                self.made.append((b, m))

    def role(self, p):
        d, f = os.path.split(p)
        rel = os.path.relpath(os.path.join(self.root, p), self.cwd)
        if p.endswith("/"):
            return dict(r="odd", b=rel)
        txt = open(os.path.join(self.root, p), errors="replace").read()
        if rel == "main.go":
            return dict(r="main" if re.search(r"^func main\(", txt, re.M) else "odd", b="")
        b = os.path.dirname(rel)
        if "/" not in b and b:
            if f == "data.go" and re.search(r"^type Data\b", txt, re.M):
                return dict(r="data", b=b)
            if f.endswith(".go") and re.search(r"^type SM\b", txt, re.M) and (f == b + ".go" or not PLAIN.match(b) or b.lower() == "data"):
                return dict(r="sm", b=b)
        return dict(r="odd", b=rel)

    def go(self):
        self.made = []
        with open(os.path.join(self.root, "go.mod"), "w") as f:
            f.write("module %s\n\ngo 1.23.4\n\nrequire github.com/gostdlib/concurrency v0.0.0\n\nreplace github.com/gostdlib/concurrency => %s\n" % (self.module, lib.REPO))
        shutil.copy(os.path.join(lib.REPO, "go.sum"), os.path.join(self.root, "go.sum"))
        open(os.path.join(self.cwd, "notes.txt"), "w").write("notes\n")
        before = files(self.root)
        for op in self.script["ops"]:
            b = self.names[op["b"]]
            if op["op"] in ("dir", "file"):
                self.emit("pre", b=b)
                p = os.path.join(self.cwd, b)
                if op["op"] == "dir":
                    os.mkdir(p)
                    p = os.path.join(p, "keep.txt")
                open(p, "w").write("keep\n")
                before = files(self.root)
            elif op["op"] == "init":
                self.wait([self.spawn(b, op["m"])])
            else:
                self.wait([self.spawn(b, op["m"]), self.spawn(self.names[op["b2"]], op["m2"])])
        after = files(self.root)
        self.emit("look", files=[self.role(p) for p in sorted(after) if p not in before],
                  lost=sum(1 for p in before if after.get(p) != before[p]))
        if self.made and self.build:
            self.programs()
        shutil.rmtree(os.path.dirname(self.root), ignore_errors=True)
        return json.dumps(dict(id=self.id, cfg=0, ev=self.ev), separators=(",", ":"))

    def programs(self):
        progs = []
        for i, (b, m) in enumerate(self.made):
            d = self.cwd
            if not m:
                d = os.path.join(self.root, "prog%d" % i)
                os.mkdir(d)
                open(os.path.join(d, "main.go"), "w").write(MAIN % (self.prefix + "/" + b))
            progs.append((b, d))
        out = os.path.join(os.path.dirname(self.root), "bin")
        ok = True
        for i, (b, d) in enumerate(progs):
            rc, txt = lib.run([lib.GO, "build", "-o", os.path.join(out, str(i)), "."], 600, env=lib.goenv(dict(GOFLAGS="-mod=mod")), cwd=d)
            if rc < 0 or "no space left" in txt or "signal: killed" in txt:
                raise lib.Broken("go build failed: " + txt[-1000:])
            ok = ok and rc == 0
            self.note = txt[-500:]
        self.emit("build", ok=ok)
        if not ok:
            return
        for i, (b, d) in enumerate(progs):
            try:
                p = subprocess.run([os.path.join(out, str(i))], cwd=self.home, env=dict(HOME=self.home), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                rc, txt = p.returncode, p.stdout.decode(errors="replace").split("\n")
            except subprocess.TimeoutExpired:
                rc, txt = 1, []
            self.emit("run", b=b, ok=rc == 0, done="pipeline ran successfully" in txt, items=[int(x) for x in txt if x.isdigit()])


def execute(scratch, scriptfile, tier, seed):
    """Returns (trace lines, summary)."""
    rng = random.Random(seed)
    scripts = [json.loads(l) for l in open(scriptfile)]
    hist = [s for s in scripts if not s["name"]]
    named = [s for s in scripts if s["name"]]
    total = len(scripts)
    if tier == "quick":
        plain = [s for s in named if PLAIN.match(s["name"])]
        odd = [s for s in named if not PLAIN.match(s["name"])]
        named = rng.sample(plain, min(50, len(plain))) + rng.sample(odd, min(70, len(odd)))
    else:
        hist = rng.sample(hist, min(900, len(hist)))
    cli = build_cli(scratch)
    todo = list(enumerate(hist + named, 1))
    # The first build fills the cache.
    lines = [One(scratch, cli, 0, dict(name="mypipeline", ops=[dict(op="init", b="A", m=True)]), seed).go()]
    with cf.ThreadPoolExecutor(max_workers=lib.CPUS) as ex:
        lines += list(ex.map(lambda x: One(scratch, cli, x[0], x[1], seed).go(), todo))
    return lines, dict(scripts=total, executions=len(lines), histories=len(hist), names=len(named))
